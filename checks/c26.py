"""C26: items that left the window are released."""
import functools
import gc
import random
import threading
import time
import tracemalloc
import weakref

from lib.harness import call, show

ID = 'C26'
TECHNIQUE = 'runtime monitoring: weak references to every item and key, allocation growth of long runs'
RULE = (
    'sources of weakly referable items and keys run for up to 400 items (a few for 5000, with the '
    'allocations of the code under test measured), with bounds of 1 to 60 or explicit drops, '
    'restarts and up to 4 readers that query in every way, are repositioned, reset, attached, '
    'closed or given up; at quiet moments every live item and key must be in the window, the last '
    'item of a reader or the item read last; after the stop and with no references left everything '
    'must be gone; non-trivial: items had left the window while readers were in use'
)
ASSUMPTIONS = ['the source keeps no references to its items',
               'cyclic garbage counts as released once the collector has run']
QUICK = 1300
THOROUGH = 40000
MIN = {'quiet moments': 9000, 'items made': 60000, 'items released': 40000, 'queries': 25000,
       'streams released': 600, 'drops': 1200, 'restarts': 300, 'last items kept': 300,
       'long runs': 6, 'readers given up': 600, 'sessions that failed': 80}


@functools.total_ordering
class Key:
    __slots__ = ('v', '__weakref__')

    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return self.v == other.v

    def __lt__(self, other):
        return self.v < other.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return f'Key({self.v})'


class Item:
    __slots__ = ('v', 'own', '__weakref__')

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f'Item({self.v})'


class Lives:
    """Weak references by number of the item."""

    def __init__(self):
        self.items = {}
        self.keys = []

    def live(self):
        gone = [v for v, w in self.items.items() if w() is None]
        for v in gone:
            del self.items[v]
        self.keys = [w for w in self.keys if w() is not None]
        return set(self.items) | {w().v for w in self.keys}


def mk_source(base, lives, mutual):
    """A source that makes as many items as allowed and keeps none."""

    class S(base):
        sleep_time_on_read_none_s = None

        def __init__(self):
            self.budget = 0
            self.close_fails = self.read_fails = False
            self.next = 0
            self.opens = 0
            self.in_session = []
            self.nones = 0

        def open(self):
            self.opens += 1
            self.nones = 0
            self.in_session = []

        def close(self):
            if self.close_fails:
                raise OSError('close failed')

        def read(self):
            if self.read_fails:
                raise OSError('read failed')
            if self.budget <= 0:
                self.nones += 1
                return None
            self.nones = 0
            self.budget -= 1
            v = self.next
            self.next += 1
            x = Item(v)
            if mutual:
                x.own = Key(v)  # the item has its key object
                lives.keys.append(weakref.ref(x.own))
            lives.items[v] = weakref.ref(x)
            self.in_session.append(v)
            return x

        info = {'a': 1}

        def key(self, data):
            if mutual:
                return data.own
            k = Key(data.v)
            lives.keys.append(weakref.ref(k))
            return k

    S.__abstractmethods__ = frozenset()
    return S()


def case(rng, ctx):
    import stream2py

    if ctx.case_id % 100 == 7:
        return long_run(rng, ctx)
    seq = rng.random() < 0.6
    s = ctx.sched(random.Random(rng.getrandbits(60)), seq=seq)
    seed = rng.getrandbits(60)
    lives = Lives()
    refs = {}

    def main(s):
        base = rng.choice([object, object, stream2py.SourceReader, stream2py.StreamSource])
        src = mk_source(base, lives, rng.random() < 0.5)
        src.close_fails = ctx.case_id % 5 == 1
        fails = ctx.case_id % 7 == 2  # the last session ends by a failure
        auto = rng.random() < 0.6
        maxlen = rng.choice([1, 2, 3, 5, 17, 60, None] if not auto else [1, 1, 2, 3, 5, 17, 60])
        stream = stream2py.StreamBuffer(src, maxlen=maxlen, auto_drop=auto,
                                        sleep_time_on_read_none_s=0.01)
        stream.start()
        ctx.describe(base=base.__name__, maxlen=maxlen, auto_drop=auto, mode=s.mode, tick=s.tick)
        readers = []
        dropped = [0]

        def window():
            xs = src.in_session
            if auto:
                return set(xs[-maxlen:] if maxlen else xs)
            return set(xs[dropped[0]:])

        def last_of(r):
            x = r.last_item
            return None if x is None else x.v

        def settle():
            """Until the source thread is done with what it may read."""
            for _ in range(3000):
                if not stream.is_running:
                    return time.sleep(3)
                if src.nones >= 2 and src.budget <= 0:
                    return
                if not auto and maxlen is not None:
                    r = stream.mk_reader(ignore_no_item_found=True)
                    o = call(r.range, Key(-1), Key(10 ** 9), peek=True)
                    if o[1] and len(o[1]) >= maxlen:
                        return
                    r = o = None
                time.sleep(0.05)
            ctx.fail('source starved', f'{src.budget} left, {src.nones}')

        def quiet(what):
            settle()
            ctx.count('quiet moments')
            allowed = window()
            if src.next:
                allowed.add(src.next - 1)
            extra = set()
            for r in readers:
                x = last_of(r)
                if x is not None and x not in allowed:
                    extra.add(x)
            if extra:
                ctx.count('last items kept', len(extra))
            allowed |= extra | set(private)
            live = lives.live()
            if live - allowed:
                gc.collect()
                live = lives.live()
            bad = sorted(live - allowed)
            ctx.check(not bad, 'item kept alive',
                      f'{what}: items or keys {bad[:20]} of {src.next} are alive; the window is '
                      f'{sorted(window())[:8]}.. ({len(window())}), last items {sorted(extra)}; '
                      f'{holders(lives, bad)}')
            ctx.most('alive', len(live))

        def query(rg, r):
            ctx.count('queries')
            op = rg.randrange(10)
            hi = src.next
            a, b = sorted((rg.randint(-1, hi + 1), rg.randint(-1, hi + 1)))
            if op < 4:
                call(r.read, rg.choice([1, 1, 2, 5]), peek=rg.choice([None, True, False]),
                     strict_n=rg.random() < 0.2)
            elif op == 4:
                call(next, r)
            elif op == 5:
                call(r.head, peek=rg.random() < 0.3)
            elif op == 6:
                call(r.tail, peek=rg.random() < 0.3, only_new_items=rg.random() < 0.5)
            elif op == 7:
                call(r.range, Key(a), Key(b), rg.choice([None, 2]), peek=rg.random() < 0.3,
                     only_new_items=rg.random() < 0.4, start_le=rg.random() < 0.3,
                     stop_ge=rg.random() < 0.3)
            elif op == 8:
                x = call(r.head, peek=True)
                if x[0] == 'ret' and x[1] is not None:
                    r.last_item = x[1]
            else:
                del r.last_item

        private = []  # what next(stream) has returned last
        use_next = rng.random() < 0.3

        for step in range(rng.choice([6, 12, 25])):
            n = rng.choice([0, 1, 2, 5, 20, 60])
            src.budget = min(n, 400 - src.next)
            x = rng.random()
            if x < 0.25 and len(readers) < 4:
                readers.append(stream.mk_reader(read_size=rng.choice([1, 1, 3]),
                                                ignore_no_item_found=rng.random() < 0.5))
            elif x < 0.35 and readers:
                r = readers.pop(rng.randrange(len(readers)))
                if rng.random() < 0.3:
                    r.close()
                del r
                ctx.count('readers given up')
            if not seq and readers and rng.random() < 0.5:
                rs = [(r, random.Random(f'{seed}:{step}:{i}')) for i, r in enumerate(readers)]

                def work(r, rg):
                    for _ in range(6):
                        query(rg, r)
                        time.sleep(rg.choice([0, 0, 0.001]))

                ts = [threading.Thread(target=work, args=p) for p in rs]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                del rs, ts
            else:
                time.sleep(rng.choice([0, 0.001, 0.05]))
                for r in readers:
                    for _ in range(rng.choice([0, 1, 3])):
                        query(rng, r)
                r = None
            settle()
            if use_next and rng.random() < 0.5:
                y = call(next, stream)
                if y[0] == 'ret' and y[1] is not None:
                    private[:] = [y[1].v]
                y = None
            if not auto and rng.random() < 0.6:
                held = len(window())
                k = rng.choice([1, 1, 2, held // 2, held])
                k = min(k, held)
                if k:
                    ctx.count('drops')
                    stream.drop(k)
                    dropped[0] += k
            quiet(f'step {step}')
            if rng.random() < 0.06:
                how = rng.randrange(2)
                if how:
                    stream.stop()
                stream.start()
                ctx.count('restarts')
                dropped[0] = 0
                private.clear()
                for r in readers:
                    if rng.random() < 0.5:
                        stream.attach_reader(r)
                r = None
                keep = [r for r in readers if r.is_same_buffer(stream.mk_reader())]
                if len(keep) < len(readers):
                    # those of the old session keep its window: they are given up here
                    readers[:] = keep
                keep = r = None
                quiet('restart')
        src.budget = 0
        settle()
        if window() and min(window()) > 0 and readers:
            ctx.interesting(s.sig, src.next, maxlen, auto, len(readers))
        ctx.count('items made', src.next)
        live = lives.live()
        ctx.count('items released', src.next - len({v for v in live if v in lives.items}))
        src.read_fails = fails
        stream.stop() if not fails else time.sleep(1)
        ctx.count('sessions that failed', fails)
        time.sleep(3)
        quiet('stopped')
        # nothing refers to the stream any more
        refs['stream'] = weakref.ref(stream)
        if rng.random() < 0.3:
            readers.clear()
        ctx.count('streams released')
        if readers:
            refs['readers'] = readers

    ctx.run(s, main, allow=(OSError,))
    # the frames of main are gone by now
    readers = refs.pop('readers', [])
    s.threads.clear()
    s.thread_errors.clear()  # their tracebacks have frames
    s.by_thread.clear()
    gc.collect()
    ctx.check(refs['stream']() is None, 'stream not released',
              lambda_show(refs['stream']()))
    if readers:
        ok = call(lambda: [r.head(peek=True) for r in readers])
        ctx.check(ok[0] == 'ret' or isinstance(ok[1], (IndexError, ValueError)), 'head failed',
                  show(ok))
        del ok
    del readers
    gc.collect()
    live = lives.live()
    ctx.check(not live, 'data not released', f'{sorted(live)[:20]}; {holders(lives, sorted(live))}')


def lambda_show(x):
    return f'referred to by {[type(r).__name__ for r in gc.get_referrers(x)][:8]}' if x else ''


def holders(lives, bad):
    """What refers to the first of the kept items, for the witness."""
    for v in bad[:1]:
        w = lives.items.get(v)
        obj = w() if w else None
        if obj is None:
            obj = next((k() for k in lives.keys if k() is not None and k().v == v), None)
        if obj is not None:
            return f'{obj!r} is referred to by ' + ', '.join(
                f'{type(r).__name__}' for r in gc.get_referrers(obj))[:400]
    return ''


def long_run(rng, ctx):
    """5000 items: the allocations of the code under test stay bounded."""
    import stream2py

    s = ctx.sched(random.Random(rng.getrandbits(60)), seq=True)
    lives = Lives()

    def main(s):
        src = mk_source(object, lives, True)
        maxlen = rng.choice([1, 3, 20])
        auto = rng.random() < 0.6
        stream = stream2py.StreamBuffer(src, maxlen=maxlen, auto_drop=auto,
                                        sleep_time_on_read_none_s=0.01)
        ctx.describe(long=True, maxlen=maxlen, auto_drop=auto)
        stream.start()
        readers = [stream.mk_reader(ignore_no_item_found=True) for _ in range(2)]
        sizes = []
        per = 20
        tracemalloc.start(1)
        try:
            for k in range(1, 251):
                src.budget = per
                for _ in range(per if not auto else 3):
                    time.sleep(0.02)
                    for r in readers:
                        call(r.read)
                        call(r.range, Key(src.next - 2), Key(src.next), only_new_items=True)
                        call(r.tail)
                        if rng.random() < 0.05:
                            call(next, r)
                            call(r.read, 3, strict_n=True)
                    if not auto:
                        held = call(readers[0].range, Key(0), Key(10 ** 9), peek=True)[1]
                        k_held = len(held) if held else 0
                        held = None
                        if k_held:
                            stream.drop(k_held)
                if k % 50 == 0:
                    gc.collect()
                    snap = tracemalloc.take_snapshot().filter_traces(
                        [tracemalloc.Filter(True, '/repo/*')])
                    sizes.append(sum(t.size for t in snap.traces))
                    live = lives.live()
                    ctx.check(len(live) <= maxlen + 6, 'items kept alive', f'{len(live)}')
        finally:
            tracemalloc.stop()
        ctx.count('long runs')
        ctx.count('items made', src.next)
        ctx.most('long run items', src.next)
        ctx.check(sizes[-1] - sizes[0] < 16_000, 'memory grows',
                  f'allocated by the code under test after every {50 * per} items: {sizes}')
        ctx.most('growth of a long run in bytes', sizes[-1] - sizes[0])
        ctx.seen('allocation profiles', tuple(sizes))
        stream.stop()

    ctx.run(s, main, allow=())
