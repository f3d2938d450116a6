"""Programs of stream operations executed step by step against the reference model.

The source thread is real but only runs while the driver sleeps, so after each feed the whole
state is known exactly; every query's outcome and cursor is compared with the model.
"""
import sys
import threading
import time

from lib.harness import call, same, show, weighted
from lib.model import ReaderModel, invoke
from lib.sources import KIND_NAMES, KINDS, mk_src

HUGE = [10 ** 6, 10 ** 9, sys.maxsize]  # counts for 'all there is'


class Rig:
    def __init__(self, rng, ctx, s, maxlen='random', auto_drop=True, kind=None, pause=0.01,
                 src_kind=None, big=False):
        from stream2py import StreamBuffer

        self.rng, self.ctx, self.s = rng, ctx, s
        self.kind = kind or rng.choice(KIND_NAMES)
        self.mk, self.key = KINDS[self.kind]
        if maxlen == 'random':
            maxlen = rng.choice([None, 1, 2, 3, 4, 5, 8, 13, 50])
        self.maxlen, self.auto_drop, self.pause = maxlen, auto_drop, pause
        self.handed = False
        self.src = mk_src(src_kind or rng, s, self.key, pause=rng.choice([pause, None]))
        self.stream = StreamBuffer(self.src, maxlen=maxlen, auto_drop=auto_drop,
                                   sleep_time_on_read_none_s=pause)
        self.made = 0  # items made so far
        self.queued = []  # pushed but not yet held (full buffer without automatic dropping)
        self.items, self.keys = [], []  # the window
        self.readers = []  # (real reader, model, name)
        self.stopped = False
        self.gone = []  # items that left the window
        ctx.describe(kind=self.kind, maxlen=maxlen, auto_drop=auto_drop,
                     source=type(self.src).__name__)

    # -- the stream side ---------------------------------------------------------------
    def start(self):
        self.stream.start()

    def settle(self):
        """Let the source thread run until it has nothing more to do."""
        time.sleep(self.pause * 3)

    def feed(self, n):
        new = [self.mk(i) for i in range(self.made, self.made + n)]
        self.made += n
        self.src.push(*new)
        self.queued += new
        self.settle()
        self.shift()
        self.ctx.count('items fed', n)

    def shift(self):
        """The model's view of what the source thread did."""
        while self.queued:
            if self.maxlen is not None and len(self.items) >= self.maxlen:
                if not self.auto_drop:
                    break
                if not self.maxlen:  # a window that holds nothing
                    self.gone.append(self.queued.pop(0))
                    continue
                self.gone.append(self.items.pop(0))
                self.keys.pop(0)
            x = self.queued.pop(0)
            self.items.append(x)
            self.keys.append(self.key(x))

    def drop(self, n):
        out = call(self.stream.drop, n)
        self.ctx.check(out == ('ret', None), 'drop failed', f'drop({n})', show(out))
        self.gone += self.items[:n]
        del self.items[:n]
        del self.keys[:n]

    # -- readers -------------------------------------------------------------------------
    def reader(self, **kw):
        r = self.stream.mk_reader(**kw)
        m = ReaderModel(kw.get('read_size', 1), kw.get('peek', False),
                        kw.get('ignore_no_item_found', False), kw.get('strict_n', False))
        rd = (r, m, f'r{len(self.readers)}')
        self.readers.append(rd)
        self.ctx.note('mk_reader', rd[2], kw)
        self.same_cursor(rd, 'a new reader')
        return rd

    def same_cursor(self, rd, when):
        r, m, name = rd
        item, key = m.cursor if m.cursor is not None else (None, None)
        self.ctx.check(
            same(r.last_item, item) and same(r.last_key, key), 'wrong cursor',
            f'{name} after {when}: last_item={r.last_item!r} last_key={r.last_key!r}, '
            f'expected {item!r} and {key!r}')

    def all_cursors(self, when):
        for rd in self.readers:
            self.same_cursor(rd, when)

    def query(self, rd, op, kw, mutate=False):
        """One query, compared with the model."""
        r, m, name = rd
        want = m.want(self.keys, self.items, op, kw)
        if self.handed and self.rng.random() < 0.5:
            # the reader is handed to another thread for this query
            res = []
            t = threading.Thread(target=lambda: res.append(call(invoke, r, op, kw)))
            t.start()
            t.join()
            out = res[0]
            self.ctx.count('queries in another thread')
        else:
            out = call(invoke, r, op, kw)
        self.ctx.note(name, op, kw, show(out), '| held', list(self.keys)[:60],
                      '| cursor', None if m.cursor is None else m.cursor[1])
        self.ctx.count('queries')
        self.ctx.count('query ' + op)
        if out[0] == 'exc' or out[1] is None:
            self.ctx.count('queries finding nothing')
        self.ctx.check(
            want.ok(out), f'{op} wrong',
            f'{name}.{op}({kw}) {show(out)}; expected {want!r}; held keys {self.keys[:80]}; '
            f'cursor {m.cursor!r}; defaults n={m.n} peek={m.peek} ignore={m.ignore} '
            f'strict={m.strict}')
        m.apply(want, out)
        self.same_cursor(rd, f'{op}({kw})')
        if mutate and out[0] == 'ret' and isinstance(out[1], list) and op in ('read', 'range'):
            if not any(out[1] is x for x in self.items):
                # a caller may do as it likes with the list it was given
                out[1].reverse()
                del out[1][:1]
                out[1].append('mutated by the caller')
        return out

    def contents(self):
        """Everything held, seen through a fresh reader's peeking range."""
        r = self.stream.mk_reader()
        if not self.keys:
            return call(r.tail, peek=True, ignore_no_item_found=True)
        lo, hi = self.low_high()
        return call(r.range, lo, hi, peek=True)

    def low_high(self):
        all_keys = [self.key(self.mk(i)) for i in (0, max(self.made + 50, 1))]
        return all_keys[0], all_keys[1]

    def check_contents(self, when):
        out = self.contents()
        want = self.items if self.items else None
        if self.items:
            ok = out[0] == 'ret' and same(out[1], list(want))
        else:
            ok = out == ('ret', None)
        self.ctx.check(ok, 'wrong contents',
                       f'{when}: {show(out)}; expected {want!r}')

    # -- random queries -------------------------------------------------------------------
    def some_key(self):
        """A key near the window: held, evicted, between, or outside."""
        rng = self.rng
        i = rng.choice([
            rng.randint(-2, self.made + 3),
            self.made - len(self.items) - len(self.queued) + rng.randint(-2, 2),
            self.made + rng.randint(-3, 2),
        ])
        k = self.key(self.mk(max(i, 0)))
        if isinstance(k, (int, float)) and not isinstance(k, bool):
            if i < 0:
                k += i * 4
            if rng.random() < 0.35:
                k += rng.choice([-1, 1, 0.5, -0.5, 0.25])
            elif rng.random() < 0.06:
                k = rng.choice([float('-inf'), float('inf'), 10 ** 30, -10 ** 30])
        return k

    def random_args(self, op):
        rng = self.rng
        kw = {}

        def opt(name, values, p=0.4):
            if rng.random() < p:
                kw[name] = rng.choice(values)

        h = len(self.items)
        if op == 'read':
            opt('n', [1, 2, 3, max(h, 1), h + 1, max(h - 1, 1), rng.randint(1, 12), None, rng.choice(HUGE)], 0.7)
            opt('peek', [True, False, None])
            opt('ignore_no_item_found', [True, False, None])
            opt('strict_n', [True, False, None])
        elif op == 'next_method':
            opt('n', [1, 2, 3, max(h, 1), h + 1, rng.choice(HUGE)], 0.5)
            opt('peek', [True, False])
            opt('ignore_no_item_found', [True, False])
            opt('strict_n', [True, False])
        elif op == 'range':
            a, b = self.some_key(), self.some_key()
            if b < a and rng.random() < 0.85:
                a, b = b, a
            kw.update(start=a, stop=b)
            opt('step', [1, 2, 3, 5, None, rng.choice([6, 1000, sys.maxsize])], 0.3)
            opt('peek', [True, False], 0.35)
            opt('ignore_no_item_found', [True, False, None], 0.5)
            opt('only_new_items', [True, False], 0.45)
            opt('start_le', [True, False])
            opt('stop_ge', [True, False])
        elif op == 'tail':
            opt('peek', [True, False])
            opt('ignore_no_item_found', [True, False], 0.5)
            opt('only_new_items', [True, False], 0.6)
        elif op == 'head':
            opt('peek', [True, False], 0.5)
        return kw

    def move_cursor(self, rd):
        """Assign or delete last_item."""
        rng = self.rng
        r, m, name = rd
        if rng.random() < 0.3:
            del r.last_item
            m.cursor = None
            self.ctx.note(name, 'del last_item')
        else:
            if self.items and rng.random() < 0.6:
                x = rng.choice(self.items)
            elif self.gone and rng.random() < 0.6:
                x = rng.choice(self.gone)
            else:
                x = self.mk(rng.randint(0, self.made + 3))
            r.last_item = x
            m.cursor = (x, self.key(x))
            self.ctx.note(name, 'last_item =', x)
        self.ctx.count('cursor moves')
        self.same_cursor(rd, 'assignment')


def reader_options(rng):
    kw = {}
    if rng.random() < 0.5:
        kw['read_size'] = rng.choice([1, 2, 3, 4, 7, rng.choice([4, 100, *HUGE])])
    if rng.random() < 0.3:
        kw['peek'] = rng.random() < 0.6
    if rng.random() < 0.5:
        kw['ignore_no_item_found'] = rng.random() < 0.6
    if rng.random() < 0.35:
        kw['strict_n'] = rng.random() < 0.7
    return kw


def program(rng, ctx, weights, steps=(10, 40), maxlen='random', auto_drop=None,
            n_readers=(1, 3), mutate=0.0, big=0.03, check_contents=0.05):
    """A random program over one session; weights say how often each operation is drawn."""
    huge = ctx.case_id % 401 == 17 and maxlen == 'random'  # a window of thousands of items
    s = ctx.sched(rng, seq=True, **({'tick': 0} if huge else {}))
    if huge:
        maxlen, steps = rng.choice([None, None, 4500, 12000]), (15, 15)

    def main(s):
        manual = rng.random() < 0.15 if auto_drop is None else not auto_drop
        rig = Rig(rng, ctx, s, maxlen=maxlen, auto_drop=not manual)
        rig.handed = ctx.case_id % 20 == 3
        if rng.random() < 0.3:
            rig.feed_later = rng.randint(1, 6)
            new = [rig.mk(i) for i in range(rig.feed_later)]
            rig.made += len(new)
            rig.src.push(*new)
            rig.queued += new
        rig.start()
        rig.settle()
        rig.shift()
        for _ in range(rng.randint(*n_readers)):
            rig.reader(**reader_options(rng))
        if huge:
            rig.feed(rng.choice([4200, 5000, 9000, 12_500]))
            rig.all_cursors('many items')
            ctx.count('windows of thousands')
            for _ in range(4):
                rig.reader(**reader_options(rng))
            for rd in rig.readers:
                # cursors far from the newest item
                x = rng.choice(rig.items[:len(rig.items) // 3])
                rd[0].last_item = x
                rd[1].cursor = (x, rig.key(x))
        elif rng.random() < big:
            rig.feed(rng.choice([300, 1000]))
        n = rng.randint(*steps)
        shapes = set()
        for _ in range(n):
            op = weighted(rng, weights.items())
            if op == 'feed':
                rig.feed(weighted(rng, [(1, 5), (2, 3), (3, 2), (7, 1), (20, 0.3)]))
            elif op == 'drop':
                if manual and rig.items:
                    rig.drop(rng.randint(0, len(rig.items)))
                    rig.settle()
                    rig.shift()
            elif op == 'reader':
                rig.reader(**reader_options(rng))
            elif op == 'cursor':
                rig.move_cursor(rng.choice(rig.readers))
            else:
                rd = rng.choice(rig.readers)
                kw = rig.random_args(op)
                if op == 'read' and rng.random() < 0.1:
                    m = rd[1]
                    if rig.items and (m.cursor is None or rig.keys[-1] > m.cursor[1]):
                        kw['blocking'] = True  # data is there: it must not wait
                out = rig.query(rd, op, kw, mutate=rng.random() < mutate)
                if out[0] == 'ret' and out[1] is not None:
                    shapes.add((op, tuple(sorted(kw)), len(rig.items),
                                rd[1].cursor is None))
            if rng.random() < check_contents:
                rig.check_contents(f'after {op}')
                rig.all_cursors(f'{op} elsewhere')
        rig.all_cursors('the program')
        rig.check_contents('at the end')
        if len(shapes) >= 3:
            ctx.interesting(rig.kind, rig.maxlen, manual, sorted(map(repr, shapes)))
        ctx.seen('query shapes (operation, options, window size)', sorted(map(repr, shapes)))
        rig.stream.stop()

    ctx.run(s, main)
