"""C06: the cursor is the last item returned; peeking or failing never moves it"""
import functools

from lib.harness import SrcError, call, show, weighted
from lib.model import invoke
from lib.seq import Rig, program, reader_options
from lib.sources import KINDS

ID = 'C06'
TECHNIQUE = 'runtime monitoring: model-based oracle over random operation histories'
RULE = (
    'random programs of queries of every kind, cursor assignments and resets on one running stream under '
    'virtual time, over window bounds, item and key types and source classes, and over keys whose '
    'comparisons, or whose computation, fail at any point of a query; every outcome and '
    'every cursor is compared with a list model; a program is non-trivial if at least three '
    'different query shapes (operation, options, window size, cursor set) returned data'
)
ASSUMPTIONS = ['counts n >= 1 and steps >= 1', 'keys comparable with each other, not with None']
QUICK = 20000
THOROUGH = 400000
MIN = {'windows of thousands': 20, 'queries': 5000, 'queries finding nothing': 200,
       'failed comparisons': 2000, 'queries after a failed one': 2000,
       'failed keys': 1000, 'assignments that fail': 400}

WEIGHTS = dict(feed=4, read=5, next=2, next_method=1.5, cursor=3, drop=0.5, reader=0.4, range=4, tail=3,
               head=2)


def case(rng, ctx):
    if rng.random() < 0.12:
        failing(rng, ctx)
    else:
        program(rng, ctx, WEIGHTS)


@functools.total_ordering
class Touchy:
    """A key whose comparisons can be made to fail."""

    __slots__ = ('v',)
    by_value = True
    left = None  # comparisons (or computations of a key) until one fails
    exc = None
    what = 'cmp'

    def __init__(self, v):
        self.v = v

    @classmethod
    def arm(cls, left, exc, what='cmp'):
        cls.left, cls.exc, cls.fired, cls.what = left, exc, False, what

    @classmethod
    def disarm(cls):
        cls.left = None
        return cls.fired

    @classmethod
    def _touch(cls, what='cmp'):
        if cls.left is not None and cls.what == what:
            cls.left -= 1
            if cls.left <= 0:
                cls.fired = True
                raise cls.exc

    def __lt__(self, other):
        if not isinstance(other, Touchy):
            return NotImplemented
        self._touch()
        return self.v < other.v

    def __eq__(self, other):
        if not isinstance(other, Touchy):
            return NotImplemented
        self._touch()
        return self.v == other.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return f'Touchy({self.v})'


def touchy_key(d):
    Touchy._touch('key')
    return Touchy(d[0])


KIND = 'touchy'
KINDS[KIND] = (KINDS['tuple'][0], touchy_key)


def failing(rng, ctx):
    """Queries in which a comparison of keys, or the key of an item, raises."""
    s = ctx.sched(rng, seq=True)

    def main(s):
        Touchy.left = None
        rig = Rig(rng, ctx, s, kind=KIND)
        rig.start()
        rig.settle()
        for _ in range(rng.randint(1, 3)):
            rig.reader(**reader_options(rng))
        rig.feed(rng.choice([1, 3, 10, 30]))
        fired = 0
        for _ in range(rng.randint(10, 40)):
            op = weighted(rng, [('read', 5), ('next', 2), ('range', 4), ('tail', 3), ('head', 1),
                                ('feed', 2), ('cursor', 1)])
            if op == 'feed':
                rig.feed(rng.choice([1, 2, 5]))
                continue
            rd = rng.choice(rig.readers)
            if op == 'cursor':
                if rng.random() < 0.4:
                    # an assignment that fails, as the item has no key
                    bad = rng.choice([None, object(), 5, ()])
                    out = call(setattr, rd[0], 'last_item', bad)
                    ctx.count('assignments that fail')
                    ctx.check(out[0] == 'exc', 'assignment of an item without a key', repr(bad))
                    rig.all_cursors(f'last_item = {bad!r}')
                else:
                    rig.move_cursor(rd)
                continue
            kw = rig.random_args(op)
            if rng.random() < 0.4:
                rig.query(rd, op, kw)
                continue
            r, m, name = rd
            want = m.want(rig.keys, rig.items, op, kw)
            exc = rng.choice([TypeError, TypeError, SrcError, RuntimeError, ArithmeticError])('keys')
            what = rng.choice(['cmp', 'cmp', 'key'])
            Touchy.arm(rng.choice([1, 1, 2, 3, 4, 6] if what == 'cmp' else [1, 1, 2, 3]), exc, what)
            try:
                out = call(invoke, r, op, kw)
            finally:
                hit = Touchy.disarm()
            ctx.note(name, op, kw, show(out), '| armed', exc, hit, '| held', list(rig.keys)[:60],
                     '| cursor', None if m.cursor is None else m.cursor[1])
            ctx.count('queries')
            if hit:
                ctx.count('failed comparisons' if what == 'cmp' else 'failed keys')
            if out[0] == 'exc' and out[1] is exc:
                fired += 1
                # the cursor is where it was
            else:
                ctx.check(want.ok(out), f'{op} wrong',
                          f'{name}.{op}({kw}) {show(out)}; expected {want!r}, or {exc!r}; held '
                          f'keys {rig.keys[:80]}; cursor {m.cursor!r}')
                m.apply(want, out)
            rig.all_cursors(f'{op}({kw}) {show(out)}')
            if hit and rng.random() < 0.8:
                rig.query(rng.choice(rig.readers), op, kw)
                ctx.count('queries after a failed one')
        rig.check_contents('at the end')
        if fired >= 3:
            ctx.interesting('failing', rig.maxlen, fired, s.sig)
        rig.stream.stop()

    ctx.run(s, main)
