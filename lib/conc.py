"""Concurrent histories of a stream and their offline check against the window model.

Events at the source boundary (read>, read<, close>) and around every query are numbered in
one total order.  Item k is certainly in the buffer once the source thread has gone on to its
next call, and certainly not before the source returned it; a query must return what it would
return on one state between these bounds, and states never go backwards in real time.
"""
import bisect
import time

from lib.harness import Inconclusive, Violation, call, same, show, weighted
from lib.model import ReaderModel, invoke
from lib.sources import KIND_NAMES, KINDS, mk_items, mk_src, script_of

INF = float('inf')


class Query:
    __slots__ = ('c', 'r', 'op', 'kw', 'out', 'cursor', 'model', 'who', 'thread')

    def __repr__(self):
        cur = None if self.cursor is None else self.cursor[1]
        return (f'[{self.c}..{self.r}] {self.who}.{self.op}({self.kw}) {show(self.out)} '
                f'cursor={cur}')


class Bounds:
    """What the source boundary says about how many items had been appended when."""

    def __init__(self, log, first=0):
        self.ret, self.done, self.items = [], [], []
        for e in log[first:]:
            if e.what == 'read<' and e.val is not None:
                self.items.append(e.val)
                self.ret.append(e.seq)
            elif e.what in ('read>', 'close>'):
                while len(self.done) < len(self.ret):
                    self.done.append(e.seq)

    def lo(self, c):
        return bisect.bisect_left(self.done, c)

    def hi(self, t):
        return bisect.bisect_left(self.ret, t)


class History:
    """Queries of one session, recorded at the client boundary."""

    def __init__(self, ctx, s, src, key, maxlen, auto_drop=True):
        self.ctx, self.s, self.src, self.key = ctx, s, src, key
        self.maxlen, self.auto_drop = maxlen, auto_drop
        self.queries = []
        self.drops = []  # [call, ret, n]

    def reader(self, stream, who, made=None, **kw):
        r = stream.mk_reader(**kw) if made is None else made
        m = ReaderModel(kw.get('read_size', 1), kw.get('peek', False),
                        kw.get('ignore_no_item_found', False), kw.get('strict_n', False))
        return (r, m, who)

    def do(self, rd, op, kw=None, fn=None):
        """Perform and record one query; fn replaces the plain invocation (e.g. a for loop)."""
        r, m, who = rd
        q = Query()
        q.op, q.kw, q.who, q.model = op, kw or {}, who, m
        q.cursor = m.cursor
        q.c = self.s.tick_seq()
        q.out = call(fn) if fn is not None else call(invoke, r, op, q.kw)
        q.r = self.s.tick_seq()
        self.ctx.count('queries')
        self.ctx.count('query ' + op)
        self.queries.append(q)
        v = q.out[1]
        if q.out[0] == 'ret' and v is not None:
            peek = q.kw.get('peek')
            if peek is None:
                peek = m.peek if op in ('read', 'next') else False
            n = q.kw.get('n')
            if n is None:
                n = m.n if op in ('read', 'next') else 1
            if not peek:
                many = op == 'range' or (op in ('read', 'next', 'next_method') and n > 1)
                if many and not (isinstance(v, list) and v):
                    if not (op == 'range' and v == []):
                        raise Violation('wrong result', f'{q!r}: a list was due')
                else:
                    item = v[-1] if many else v
                    m.cursor = (item, self.key(item))
                    if r is not None:
                        self.ctx.check(same(r.last_item, item), 'wrong cursor',
                                       f'{q!r}: last_item is {r.last_item!r}')
        return q.out

    def drop(self, stream, n):
        d = [self.s.tick_seq(), INF, n]
        self.drops.append(d)
        out = call(stream.drop, n)
        d[1] = self.s.tick_seq()
        self.ctx.check(out == ('ret', None), 'drop failed', f'drop({n})', show(out))
        self.ctx.count('drops')

    # -- offline check -------------------------------------------------------------------
    def window(self, b, a, d):
        lo = d if not self.auto_drop else (0 if self.maxlen is None else max(0, a - self.maxlen))
        return lo, a

    def check(self):
        b = Bounds(self.src.log)
        keys = [self.key(x) for x in b.items]
        qs = sorted(self.queries, key=lambda q: q.r)
        cum, rets, calls = [0], [], []
        for c, r, n in self.drops:
            cum.append(cum[-1] + n)
            calls.append(c)
            rets.append(r)
        cands = []
        wide = 0
        for q in qs:
            lo, hi = b.lo(q.c), b.hi(q.r)
            dlo, dhi = bisect.bisect_left(rets, q.c), bisect.bisect_left(calls, q.r)
            good = []
            m = q.model
            old, m.cursor = m.cursor, q.cursor
            for a in range(lo, hi + 1):
                for d in range(dlo, dhi + 1):
                    D = cum[d]
                    if D > a or (not self.auto_drop and self.maxlen is not None
                                 and a - D > self.maxlen):
                        continue
                    i, j = self.window(b, a, D)
                    if m.want(keys[i:j], b.items[i:j], q.op, q.kw).ok(q.out):
                        good.append((a, d))
            m.cursor = old
            wide += hi > lo
            if not good:
                i, j = self.window(b, lo, cum[dlo])
                m.cursor = q.cursor
                w0 = m.want(keys[i:j], b.items[i:j], q.op, q.kw)
                i2, j2 = self.window(b, hi, cum[dhi])
                w1 = m.want(keys[i2:j2], b.items[i2:j2], q.op, q.kw)
                raise Violation(
                    'no state explains a query',
                    f'{q!r}; window when called: keys {keys[i:j][:60]} ({w0!r}), when it '
                    f'returned: keys {keys[i2:j2][:60]} ({w1!r})')
            cands.append(good)
        self.ctx.count('queries overlapping an append', wide)
        if not self.drops:
            self.greedy(qs, [[a for a, _ in g] for g in cands])
        else:
            self.search(qs, cands)
        return b

    def greedy(self, qs, cands):
        """The least explaining states, in order of return; complete as states only grow."""
        rr, best, who = [], [], []
        for q, good in zip(qs, cands):
            k = bisect.bisect_left(rr, q.c)
            floor = best[k - 1] if k else 0
            a = next((x for x in good if x >= floor), None)
            if a is None:
                raise Violation(
                    'state went backwards',
                    f'{q!r} saw at most {max(good)} items although before it was called '
                    f'{who[k - 1]!r} had seen {floor}')
            self.ctx.count('states linearized')
            rr.append(q.r)
            if best and best[-1] >= a:
                best.append(best[-1])
                who.append(who[-1])
            else:
                best.append(a)
                who.append(q)

    def search(self, qs, cands):
        n = len(qs)
        preds = []
        for i, q in enumerate(qs):
            preds.append([j for j in range(i) if qs[j].r < q.c])
        chosen = [None] * n
        budget = [50_000]
        deepest = [0]

        def go(i):
            if i == n:
                return True
            deepest[0] = max(deepest[0], i)
            fa = max((chosen[j][0] for j in preds[i]), default=0)
            fd = max((chosen[j][1] for j in preds[i]), default=0)
            for a, d in sorted(cands[i], key=lambda p: (p[0] + p[1])):
                if a < fa or d < fd:
                    continue
                budget[0] -= 1
                if budget[0] < 0:
                    raise Inconclusive('linearization search budget')
                chosen[i] = (a, d)
                if go(i + 1):
                    return True
            return False

        import sys

        sys.setrecursionlimit(20_000)
        if not go(0):
            q = qs[deepest[0]]
            raise Violation('state went backwards', f'{q!r} fits no history of states; '
                            f'candidates (appended, drops) {cands[deepest[0]][:20]}')
        self.ctx.count('states linearized', n)


class Stream:
    """A stream over a scripted source with its history."""

    def __init__(self, rng, ctx, s, n=None, maxlen='random', auto_drop=True, kind=None,
                 none_p=None, pause=None, ends=None, src_kind=None, delay_p=None):
        from stream2py import StreamBuffer

        self.rng, self.ctx, self.s = rng, ctx, s
        self.kind = kind or rng.choice(KIND_NAMES)
        self.key = KINDS[self.kind][1]
        self.n = rng.choice([3, 8, 15, 30]) if n is None else n
        self.items = mk_items(self.kind, self.n)
        if maxlen == 'random':
            maxlen = rng.choice([None, 1, 2, 3, 4, 6, 10, 100])
        self.maxlen = maxlen
        self.pause = rng.choice([0, 0.001, 0.01, 0.3]) if pause is None else pause
        none_p = rng.choice([0, 0.1, 0.5]) if none_p is None else none_p
        delay_p = rng.choice([0, 0, 0.3, 1]) if delay_p is None else delay_p
        script = script_of(self.items, rng, none_p, delay_p,
                           delays=rng.choice([(0.0005,), (0.002, 0.01), (0.001, 0.05)]))
        if ends is not None:
            script.append(('raise', ends))
        self.ends = ends
        self.src = mk_src(src_kind or rng, s, self.key, script)
        self.auto_drop = auto_drop
        self.stream = StreamBuffer(self.src, maxlen=maxlen, auto_drop=auto_drop,
                                   sleep_time_on_read_none_s=self.pause)
        self.h = History(ctx, s, self.src, self.key, maxlen, auto_drop)
        ctx.describe(kind=self.kind, items=self.n, maxlen=maxlen, auto_drop=auto_drop,
                     pause=self.pause, mode=s.mode, p=s.p, tick=s.tick,
                     source=type(self.src).__name__)

    def held(self):
        """Number of items in the buffer, as a reader sees it."""
        r = self.stream.mk_reader(ignore_no_item_found=True)
        out = call(r.range, self.key(self.items[0]), self.key(self.items[-1]), peek=True)
        if out[0] != 'ret' or not isinstance(out[1], list):
            raise Violation('query failed', show(out))
        return len(out[1])

    def wait_all_held(self, dropped=0, step=0.05, limit=20_000):
        """Wait (virtual time) until the source thread has moved on from the last item."""
        for _ in range(limit):
            if self.src.drained or not self.auto_drop:
                b = Bounds(self.src.log)
                if len(b.done) >= self.n:
                    return
                if not self.auto_drop and dropped + self.held() >= self.n:
                    return
                if not self.stream.is_running:
                    return
            time.sleep(step)
        raise Violation('source starved', f'{self.src.pos} of {len(self.src.script)} reads '
                        f'after {self.s.now} virtual seconds')


def pauses(rng):
    """Sleep lengths a consumer draws from between its queries."""
    return rng.choice([(0,), (0, 0, 0.001), (0, 0.01), (0.0003, 0.005, 0.05)])


def query_args(rng, op, items, key):
    """Options of a query; range keys anywhere on the items' scale."""
    kw = {}

    def opt(name, values, p=0.4):
        if rng.random() < p:
            kw[name] = rng.choice(values)

    if op == 'read':
        opt('n', [1, 1, 2, 3, 5], 0.7)
        opt('peek', [True, False, None])
        opt('ignore_no_item_found', [True, False, None])
        opt('strict_n', [True, False, None], 0.3)
    elif op == 'range':
        i, j = rng.randrange(len(items)), rng.randrange(len(items))
        x = rng.random()
        if x < 0.35:
            i, j = 0, len(items) - 1
        elif i > j and x < 0.95:
            i, j = j, i
        kw.update(start=key(items[i]), stop=key(items[j]))
        opt('step', [1, 2, 3], 0.25)
        opt('peek', [True, False], 0.5)
        opt('ignore_no_item_found', [True, False, None], 0.7)
        opt('only_new_items', [True, False], 0.5)
        opt('start_le', [True, False])
        opt('stop_ge', [True, False])
    elif op == 'tail':
        opt('peek', [True, False])
        opt('ignore_no_item_found', [True, False], 0.6)
        opt('only_new_items', [True, False], 0.6)
    elif op == 'head':
        opt('peek', [True, False], 0.5)
    return kw


__all__ = [n for n in dir() if not n.startswith('__')]
_ = weighted
