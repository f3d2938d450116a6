"""C17: sorted containers agree with a plain sorted list under any history."""
import bisect
import copy
import operator
import pickle
from collections import Counter

from lib.harness import call, same, show, weighted

ID = 'C17'
TECHNIQUE = 'runtime monitoring: differential oracle (plain sorted list) over random operation histories'
RULE = (
    'histories of 5-80 operations on SortedCollection and SortedDeque (bounds 0-12 and none) over '
    'items of 8 kinds (unorderable, tying in key, equal but distinct, falsy), each result and the '
    'whole content compared with a plain list after every operation; pickling, copying, clearing, '
    're-keying and re-bounding at any point, after which the history goes on; non-trivial: at '
    'least three changing operations succeeded'
)
ASSUMPTIONS = [
    'equal items have equal keys and keys are totally ordered',
    'the order of items with equal keys is free when the collection is built or re-keyed, and is '
    'as documented for insert (left) and insert_right (right)',
]
QUICK = 12000
THOROUGH = 500000
MIN = {'containers of thousands': 25, 'operations': 200000, 'lookups': 100000, 'refusals': 5000, 'pickled': 2000,
       'copied': 2000, 'rekeyed': 2000, 'rebounded': 500, 'evictions': 2000}


class Unord:
    """Unorderable item compared by identity."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __repr__(self):
        return f'U({self.a},{self.b})'


class Val:
    """Unorderable item compared by value."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __eq__(self, other):
        return isinstance(other, Val) and (self.a, self.b) == (other.a, other.b)

    __hash__ = None

    def __repr__(self):
        return f'V({self.a},{self.b})'


def neg(x):
    return -x


def negkey(d):
    return -d['a']


def half(x):
    return x // 2


def mod(x):
    return x % 3


# kind: (make from two small ints, keys; None is the identity)
KINDS = {
    'int': (lambda a, b: a, [None, neg, half, mod, abs]),
    'float': (lambda a, b: a * 0.5, [None, neg, half]),
    'str': (lambda a, b: 'aAbBcCdDeE'[a % 10] * (1 + b), [None, str.lower, str.upper, len]),
    'tuple': (lambda a, b: (a, b), [None, operator.itemgetter(0), operator.itemgetter(1)]),
    'dict': (lambda a, b: {'a': a, 'b': b}, [operator.itemgetter('a'), operator.itemgetter('b'),
                                             negkey]),
    'unord': (lambda a, b: Unord(a, b), [operator.attrgetter('a'), operator.attrgetter('b')]),
    'val': (lambda a, b: Val(a, b), [operator.attrgetter('a'), operator.attrgetter('b')]),
    'list': (lambda a, b: [a, b], [operator.itemgetter(0), operator.itemgetter(1), len, None]),
}
PICKLES = ['int', 'float', 'str', 'tuple', 'dict', 'val', 'list']


def case(rng, ctx):
    from stream2py.utility.sorted_collection import SortedCollection
    from stream2py.utility.sorted_deque import SortedDeque

    kind = rng.choice(list(KINDS))
    mk, keys = KINDS[kind]
    deque = rng.random() < 0.65
    wide = rng.choice([3, 6, 20])
    if ctx.case_id % 400 == 9:
        return many(rng, ctx)
    T = Twin(rng, ctx, SortedDeque if deque else SortedCollection, deque, kind, mk, keys, wide)
    T.build()
    n = rng.choice([5, 20, 80])
    ctx.describe(kind=kind, container=T.cls.__name__, maxlen=T.maxlen, start=len(T.items),
                 operations=n)
    growth = rng.choice([1, 3])
    for _ in range(n):
        op = weighted(rng, [('append', 4 * growth if deque else 0), ('insert', 2 * growth),
                            ('insert_right', 2 * growth), ('remove', 2), ('drop', 1.5 * deque),
                            ('rekey', 0.6), ('delkey', 0.2), ('maxlen', 0.8 * deque),
                            ('delmaxlen', 0.1 * deque),
                            ('clear', 0.15), ('copy', 0.6), ('pickle', 0.6), ('bad', 0.8),
                            ('find', 6), ('index', 4), ('get', 2), ('range', 3 * deque),
                            ('by_index', 2 * deque), ('last_gt', 1.5 * deque), ('iterate', 1)])
        ctx.count('operations')
        getattr(T, 'op_' + op)()
        T.compare(op)
    if T.changes >= 3:
        ctx.interesting(kind, T.cls.__name__, repr(ctx.trail)[:3000])


def many(rng, ctx):
    """Thousands of items: the same operations, the bound among them."""
    from stream2py.utility.sorted_collection import SortedCollection
    from stream2py.utility.sorted_deque import SortedDeque

    kind = rng.choice(['int', 'tuple', 'unord'])
    mk, keys = KINDS[kind]
    deque = rng.random() < 0.8
    T = Twin(rng, ctx, SortedDeque if deque else SortedCollection, deque, kind, mk, keys[:2], 15000)
    T.many = n = rng.choice([1100, 4200, 9000, 17000])
    T.build()
    ctx.describe(kind=kind, container=T.cls.__name__, maxlen=T.maxlen, start=n)
    ctx.count('containers of thousands')
    for _ in range(14):
        op = rng.choice(['find', 'find', 'index', 'insert', 'remove', 'rekey', 'copy']
                        + ['range', 'last_gt', 'append', 'append', 'drop', 'maxlen', 'by_index'] * deque)
        ctx.count('operations')
        getattr(T, 'op_' + op)()
        T.compare(op)
    ctx.interesting(kind, T.cls.__name__, n, T.maxlen)


class Twin:
    many = 0

    def __init__(self, rng, ctx, cls, deque, kind, mk, keys, wide):
        self.rng, self.ctx, self.cls, self.deque, self.kind = rng, ctx, cls, deque, kind
        self.mkitem, self.keyfns, self.wide = mk, keys, wide
        self.changes = 0

    def item(self):
        r = self.rng
        return self.mkitem(r.randrange(-self.wide, self.wide), r.randrange(2))

    def k(self, x):
        return x if self.given is None else self.given(x)

    @property
    def keys(self):
        return [self.k(x) for x in self.items]

    # -- building --------------------------------------------------------------------------
    def build(self):
        r = self.rng
        self.given = r.choice(self.keyfns)
        self.maxlen = r.choice([None, 0, 1, 2, 3, 5, 12]) if self.deque else None
        xs = [self.item() for _ in range(self.many or r.choice([0, 0, 1, 3, 8, 30]))]
        if self.many and self.deque:
            self.maxlen = r.choice([None, self.many // 2, self.many - 1, self.many, self.many + 3])
        src = list(xs)
        feed = r.choice([list, tuple, iter])(xs)
        args = dict(key=self.given)
        if self.deque:
            args['maxlen'] = self.maxlen
        if self.given is None and r.random() < 0.5:
            del args['key']
        if not src and r.random() < 0.5:
            o = call(self.cls, **args)
        else:
            o = call(self.cls, feed, **args)
        self.ctx.check(o[0] == 'ret', 'construction failed', f'{src!r} {args}', show(o))
        self.c = o[1]
        self.ctx.note('build', self.cls.__name__, src, args)
        self.adopt(src, 'construction')
        self.compare('construction')

    def adopt(self, xs, what):
        """Take over the container's order after it sorted xs, if it is a right one."""
        ctx = self.ctx
        got = self.listed(self.c)
        kept = sorted((self.k(x) for x in xs))
        if self.maxlen is not None:
            kept = kept[len(kept) - min(self.maxlen, len(kept)):]
        ctx.check([self.k(x) for x in got] == kept, f'wrong content after {what}',
                  f'{got!r} from {xs!r}, maxlen {self.maxlen}')
        left = list(xs)
        if self.many:
            # the very same items
            a, b = Counter(map(id, got)), Counter(map(id, xs))
            ctx.check(all(b[i] >= n for i, n in a.items()), f'wrong content after {what}',
                      f'{len(got)} items of {len(xs)}, maxlen {self.maxlen}')
            self.items = got
            return
        for x in got:
            i = next((i for i, y in enumerate(left) if x is y or same(x, y)), None)
            ctx.check(i is not None, f'wrong content after {what}',
                      f'{got!r} from {xs!r}, maxlen {self.maxlen}')
            del left[i]
        self.items = got

    def listed(self, c):
        o = call(lambda: list(c))
        self.ctx.check(o[0] == 'ret', 'cannot be iterated', show(o))
        return o[1]

    # -- comparing -------------------------------------------------------------------------
    def eq(self, xs, ys):
        return len(xs) == len(ys) and all(x is y or same(x, y) for x, y in zip(xs, ys))

    def compare(self, after):
        ctx, c = self.ctx, self.c
        got = self.listed(c)
        ctx.check(self.eq(got, self.items), f'content after {after}',
                  f'{got!r}, the list has {self.items!r}')
        ctx.check(len(c) == len(self.items), f'length after {after}', str(len(c)))
        if self.deque:
            ctx.check(c.maxlen == self.maxlen, f'bound after {after}',
                      f'{c.maxlen}, due {self.maxlen}')
            ctx.check(self.maxlen is None or len(got) <= self.maxlen, 'longer than its bound',
                      repr(got))
        if self.given is not None:
            ctx.check(c.key is self.given or c.key == self.given, f'key after {after}',
                      repr(c.key))
        else:
            for x in self.items[:2]:
                ctx.check(c.key(x) is x, f'key after {after}', repr(c.key(x)))
        # the keys used for searching are those of the items
        if self.items and after not in ('find', 'index', 'get', 'range', 'by_index', 'last_gt'):
            for i in {0, len(self.items) - 1, self.rng.randrange(len(self.items))}:
                x = self.items[i]
                o = call(c.find, self.k(x))
                w = self.items[bisect.bisect_left(self.keys, self.k(x))]
                ctx.check(o[0] == 'ret' and (o[1] is w or same(o[1], w)),
                          f'key index after {after}', f'find({self.k(x)!r})', show(o))

    def result(self, what, o, want, exc=ValueError):
        """want: ('ret', v) or ('exc',)"""
        self.ctx.note(what, show(o))
        if want[0] == 'exc':
            self.ctx.count('refusals')
            self.ctx.check(o[0] == 'exc' and isinstance(o[1], exc), f'{what[0]} wrong',
                           f'{what}', show(o), f'; {exc} was due; list {self.items!r}')
        else:
            self.ctx.check(o[0] == 'ret' and (o[1] is want[1] or same(o[1], want[1])
                                              or self.eqlist(o[1], want[1])),
                           f'{what[0]} wrong', f'{what}', show(o),
                           f'; {want[1]!r} was due; list {self.items!r}')

    def eqlist(self, a, b):
        return isinstance(a, list) and isinstance(b, list) and self.eq(a, b)

    # -- changes ---------------------------------------------------------------------------
    def op_append(self):
        r = self.rng
        x = self.item()
        if r.random() < 0.6 and self.items:
            # an item that follows the last one
            for _ in range(20):
                if self.k(x) > self.keys[-1]:
                    break
                x = self.mkitem(r.randrange(-self.wide, self.wide) + r.choice([0, 5, 20]), 0)
        ok = not self.items or self.k(x) > self.keys[-1]
        o = call(self.c.append, x)
        self.result(('append', x), o, ('ret', None) if ok else ('exc',))
        if ok:
            self.changes += 1
            self.items.append(x)
            if self.maxlen is not None and len(self.items) > self.maxlen:
                self.items.pop(0)
                self.ctx.count('evictions')

    def insert(self, name, side):
        x = self.item()
        full = self.maxlen is not None and len(self.items) >= self.maxlen
        o = call(getattr(self.c, name), x)
        self.result((name, x), o, ('exc',) if full else ('ret', None), Exception)
        if not full:
            self.changes += 1
            self.items.insert(side(self.keys, self.k(x)), x)

    def op_insert(self):
        self.insert('insert', bisect.bisect_left)

    def op_insert_right(self):
        self.insert('insert_right', bisect.bisect_right)

    def probe(self):
        """An item that may be in the container, or equal to one in it."""
        r = self.rng
        if self.items and r.random() < 0.6:
            return r.choice(self.items)
        return self.item()

    def place(self, x):
        ks, k = self.keys, self.k(x)
        for i in range(bisect.bisect_left(ks, k), bisect.bisect_right(ks, k)):
            if self.items[i] is x or self.items[i] == x:
                return i
        return None

    def op_remove(self):
        x = self.probe()
        i = self.place(x)
        o = call(self.c.remove, x)
        self.result(('remove', x), o, ('exc',) if i is None else ('ret', None))
        if i is not None:
            self.changes += 1
            del self.items[i]

    def op_drop(self):
        r = self.rng
        n = r.randint(0, len(self.items)) if r.random() < 0.5 else min(1, len(self.items))
        o = call(self.c.drop, n) if n != 1 or r.random() < 0.5 else call(self.c.drop)
        self.result(('drop', n), o, ('ret', None))
        self.changes += n > 0
        del self.items[:n]
        if r.random() < 0.08:
            # more than there are: all of them go, or none; it may fail
            n = len(self.items) + r.choice([1, 2, 100])
            o = call(self.c.drop, n)
            left = call(lambda: (list(self.c), len(self.c)))
            self.ctx.count('drops of more than was held')
            if left == ('ret', ([], 0)):
                self.items = []
            else:
                self.ctx.check(o[0] == 'exc' and left[0] == 'ret'
                               and same(left[1], (list(self.items), len(self.items))),
                               'drop of more than was held',
                               f'drop({n}) {show(o)}; then {show(left)}; list {self.items}')

    def op_rekey(self):
        new = self.rng.choice(self.keyfns)
        if new is None:
            return self.op_delkey()
        before = list(self.items)
        o = call(setattr, self.c, 'key', new)
        self.result(('key =', new), o, ('ret', None))
        old, self.given = self.given, new
        self.ctx.count('rekeyed')
        self.changes += 1
        if old is new:
            return
        self.adopt(before, 're-keying')

    def op_delkey(self):
        if None not in self.keyfns:
            return
        before = list(self.items)
        o = call(delattr, self.c, 'key')
        self.result(('del key',), o, ('ret', None))
        self.given = None
        self.ctx.count('rekeyed')
        self.adopt(before, 're-keying')

    def op_maxlen(self):
        m = self.rng.choice([None, 0, 1, 2, 3, 5, 12, len(self.items), len(self.items) + 1])
        if self.many:
            m = len(self.items) - self.rng.choice([-5000, 0, 1, 100, len(self.items) // 2])
        o = call(setattr, self.c, 'maxlen', m)
        self.result(('maxlen =', m), o, ('ret', None))
        self.rebound(m)

    def op_delmaxlen(self):
        o = call(delattr, self.c, 'maxlen')
        self.result(('del maxlen',), o, ('ret', None))
        self.rebound(None)

    def rebound(self, m):
        self.maxlen = m
        self.ctx.count('rebounded')
        if m is not None and len(self.items) > m:
            self.items = self.items[len(self.items) - m:]
            self.ctx.count('evictions')
        self.changes += 1

    def op_clear(self):
        o = call(self.c.clear)
        self.result(('clear',), o, ('ret', None))
        self.items = []
        self.changes += 1

    def swap(self, new, what):
        """Go on with the copy, sure that it is one and that the old one is left alone."""
        ctx = self.ctx
        ctx.check(type(new) is self.cls, f'{what} of another type', repr(new))
        old, self.c = self.c, new
        if self.rng.random() < 0.5:
            # the original does not see what happens to the copy
            before = list(old)
            self.compare(what)
            x = self.item()
            full = self.maxlen is not None and len(self.items) >= self.maxlen
            if not full:
                self.c.insert(x)
            elif self.items:
                self.c.remove(self.items[0])
            got = list(old)
            ctx.check(self.eq(got, before), f'{what} shares state',
                      f'{got!r}, before {before!r}')
            if not full:
                self.items.insert(bisect.bisect_left(self.keys, self.k(x)), x)
            elif self.items:
                del self.items[0]

    def op_copy(self):
        ways = [self.c.copy, self.c.copy, lambda: copy.copy(self.c)]
        if self.deque and self.given is not None:  # to_jdict is work in progress
            ways.append(lambda: self.cls.from_jdict(self.c.to_jdict()))
        o = call(self.rng.choice(ways))
        self.ctx.check(o[0] == 'ret', 'copy failed', show(o))
        self.ctx.note('copy')
        self.ctx.count('copied')
        self.swap(o[1], 'copy')

    def op_pickle(self):
        if self.kind not in PICKLES:
            return
        o = call(lambda: pickle.loads(pickle.dumps(self.c, self.rng.choice([2, 4, 5]))))
        self.ctx.check(o[0] == 'ret', 'pickle failed', show(o))
        new = o[1]
        self.ctx.note('pickle')
        self.ctx.count('pickled')
        got = list(new)
        self.ctx.check(type(new) is self.cls and got == self.items, 'pickle wrong',
                       f'{got!r}, due {self.items!r}')
        if self.given is not None:
            self.ctx.check(all(new.key(x) == self.given(x) for x in got), 'pickle lost the key',
                           repr(new.key))
            if isinstance(self.given, (operator.itemgetter, operator.attrgetter)):
                self.given = new.key  # an equal function
        self.items = got
        self.swap(new, 'pickle')

    def op_bad(self):
        """Items without a key, or with one that cannot be compared."""
        if not self.items or self.maxlen == 0:
            return
        bads = {'int': 'x', 'float': 'x', 'str': 5, 'tuple': 5, 'dict': {}, 'unord': 5, 'val': 5,
                'list': 5}
        x = bads[self.kind]
        if self.given in (mod, len, abs):
            x = None
        name = self.rng.choice(['append'] * self.deque + ['insert', 'insert_right'])
        o = call(getattr(self.c, name), x)
        self.result((name, x), o, ('exc',), Exception)

    # -- lookups ---------------------------------------------------------------------------
    def akey(self):
        """A key on the items' scale."""
        r = self.rng
        if self.items and r.random() < 0.5:
            return self.k(r.choice(self.items))
        k = self.k(self.item())
        if isinstance(k, (int, float)) and r.random() < 0.4:
            k += 0.25
        return k

    def op_find(self):
        self.ctx.count('lookups')
        k = self.akey()
        ks, xs = self.keys, self.items
        name = self.rng.choice(['find', 'find_le', 'find_lt', 'find_ge', 'find_gt'])
        i = {
            'find': next((i for i, q in enumerate(ks) if q == k), None),
            'find_le': next((i for i in reversed(range(len(ks))) if ks[i] <= k), None),
            'find_lt': next((i for i in reversed(range(len(ks))) if ks[i] < k), None),
            'find_ge': next((i for i, q in enumerate(ks) if q >= k), None),
            'find_gt': next((i for i, q in enumerate(ks) if q > k), None),
        }[name]
        o = call(getattr(self.c, name), k)
        self.result((name, k), o, ('exc',) if i is None else ('ret', xs[i]))

    def op_index(self):
        self.ctx.count('lookups')
        x = self.probe()
        i = self.place(x)
        self.result(('index', x), call(self.c.index, x), ('exc',) if i is None else ('ret', i))
        self.result(('in', x), call(lambda: x in self.c), ('ret', i is not None))
        n = sum(1 for y in self.items if y is x or y == x)
        self.result(('count', x), call(self.c.count, x), ('ret', n))

    def op_get(self):
        self.ctx.count('lookups')
        n = len(self.items)
        i = self.rng.randint(-n - 1, n)
        ok = -n <= i < n
        self.result(('[]', i), call(lambda: self.c[i]),
                    ('ret', self.items[i]) if ok else ('exc',), IndexError)
        if not self.deque:
            sl = slice(*[self.rng.choice([None, self.rng.randint(-n - 1, n + 1)])
                         for _ in range(2)])
            self.result(('[:]', sl), call(lambda: self.c[sl]), ('ret', self.items[sl]))

    def op_range(self):
        self.ctx.count('lookups')
        a, b = self.akey(), self.akey()
        if a > b and self.rng.random() < 0.8:
            a, b = b, a
        step = self.rng.choice([None, None, 1, 2, 3])
        want = [x for x in self.items if a <= self.k(x) <= b][::step]
        args = (a, b) if step is None and self.rng.random() < 0.5 else (a, b, step)
        self.result(('range', *args), call(self.c.range, *args), ('ret', want))

    def op_by_index(self):
        self.ctx.count('lookups')
        r, n = self.rng, len(self.items)
        i, j = r.choice([None, r.randint(0, n + 2)]), r.choice([None, r.randint(0, n + 2)])
        step = r.choice([None, 1, 2, 3])
        self.result(('range_by_index', i, j, step), call(self.c.range_by_index, i, j, step),
                    ('ret', self.items[i:j:step]))

    def op_last_gt(self):
        self.ctx.count('lookups')
        k = self.akey()
        ok = self.items and self.keys[-1] > k
        self.result(('find_last_gt', k), call(self.c.find_last_gt, k),
                    ('ret', self.items[-1]) if ok else ('exc',))

    def op_iterate(self):
        self.ctx.count('lookups')
        o = call(repr, self.c)
        self.ctx.check(o[0] == 'ret' and self.cls.__name__ in o[1]
                       and repr(self.items) in o[1], 'repr', show(o), repr(self.items))
        if self.deque:
            o = call(self.c.to_jdict)
            self.ctx.check(o[0] == 'ret' and isinstance(o[1], dict)
                           and self.eqlist(o[1].get('iterable'), self.items)
                           and o[1].get('maxlen') == self.maxlen, 'to_jdict', show(o))
        self.result(('reversed',), call(lambda: list(reversed(self.c))),
                    ('ret', self.items[::-1]))
        it = iter(self.c)
        self.result(('iter',), call(lambda: list(it)), ('ret', list(self.items)))
