"""C02: the buffer holds exactly the most recent items, up to its bound."""
import random
import threading
import time

from lib.conc import Stream, pauses
from lib.harness import call, same, show, weighted
from lib.seq import Rig, program

ID = 'C02'
TECHNIQUE = 'runtime monitoring: contents oracle at quiescent points and on concurrent observations'
RULE = (
    'sequential histories of feeds with the exact contents compared after every step, for '
    'bounds 0..2000 (including the default bound), unbounded streams and item counts around '
    'the bound, and runs of 10 000 to 66 000 items; and concurrent observers taking whole-window queries of a stream that is being '
    'filled, each observation checked for bound, order and gaps and against the states possible '
    'at that moment; non-trivial: the bound was exceeded or an observation overlapped an append'
)
ASSUMPTIONS = []
QUICK = 3000
THOROUGH = 60000
MIN = {'contents compared': 3000, 'observations': 3000, 'evictions': 2000, 'long runs': 3,
       'windows that hold nothing': 30}

WEIGHTS = dict(feed=6, read=1, cursor=0.5, drop=1, reader=0.2, range=1, tail=1, head=1)


def stepwise(rng, ctx):
    """Every prefix length around the bound."""
    s = ctx.sched(rng, seq=True)

    def main(s):
        m = rng.choice([0, 1, 2, 3, 4, 7, 10, 16, 64, 100, 'default', None, 1000, 2000])
        if m == 'default':
            from stream2py import StreamBuffer

            rig = Rig(rng, ctx, s, maxlen=100)
            rig.stream = StreamBuffer(rig.src, sleep_time_on_read_none_s=rig.pause)
        else:
            rig = Rig(rng, ctx, s, maxlen=m)
        rig.start()
        rig.settle()
        rig.check_contents('before any item')
        bound = rig.maxlen or 100
        ctx.count('windows that hold nothing', rig.maxlen == 0)
        if bound >= 64 and rng.random() < 0.9:
            rig.feed(bound + rng.randint(-3, 3))
            compare(ctx, rig)
        for _ in range(rng.randint(3, 12)):
            rig.feed(weighted(rng, [(1, 5), (2, 2), (bound, 1), (bound + 1, 1),
                                    (3 * bound + 1, 0.3), (rng.randint(1, 5), 2)])
                     if bound < 64 else rng.randint(1, 5))
            compare(ctx, rig)
        ctx.count('evictions', len(rig.gone))
        if rig.gone or rig.maxlen is None:
            ctx.interesting(rig.kind, rig.maxlen, rig.made)
        rig.stream.stop()
        compare(ctx, rig)

    ctx.run(s, main)


def long_run(rng, ctx):
    """Many items: unbounded streams keep all of them, large bounds are kept exactly."""
    s = ctx.sched(rng, seq=True, tick=0)

    def main(s):
        n = rng.choice([10_150, 12_000, 21_000]) if not ctx.thorough else rng.choice(
            [12_000, 33_000, 66_500])
        m = rng.choice([None, None, None, 10_050, n - 7, n + 7])
        rig = Rig(rng, ctx, s, maxlen=m, kind=rng.choice(['int', 'str', 'rec', 'tuple']))
        rig.start()
        rig.feed(n)
        whole(ctx, rig)
        for _ in range(3):
            rig.feed(rng.choice([1, 17, 300]))
            whole(ctx, rig)
        rig.stream.stop()
        whole(ctx, rig)
        ctx.count('long runs')
        ctx.most('items of a run', rig.made)
        ctx.interesting('long', rig.kind, m, rig.made)

    ctx.run(s, main)


def whole(ctx, rig):
    ctx.count('contents compared')
    out = rig.contents()
    r = rig.stream.mk_reader()
    ends = (call(r.head, peek=True), call(r.tail, peek=True))
    for got, what in ((out[1], 'range'), (call(r.read, len(rig.items) + 1)[1], 'read')):
        ctx.check(same(got, rig.items), 'wrong contents',
                  f'{what} after {rig.made} items with bound {rig.maxlen}: '
                  + (f'{len(got)} items, first {got[:3]!r}, last {got[-3:]!r}'
                     if isinstance(got, list) else repr(got))
                  + f'; {len(rig.items)} were due, from {rig.items[0]!r}')
    ctx.check(ends[0][0] == 'ret' and same(ends[0][1], rig.items[0])
              and ends[1][0] == 'ret' and same(ends[1][1], rig.items[-1]),
              'wrong ends', f'head {show(ends[0])}, tail {show(ends[1])}')


def compare(ctx, rig):
    ctx.count('contents compared')
    rig.check_contents(f'after {rig.made} items with bound {rig.maxlen}')
    r = rig.stream.mk_reader(ignore_no_item_found=True)
    got = []
    n = rig.rng.choice([1, 2, 7, 10_000])
    if n == 1 and len(rig.items) > 50:
        n = 13
    while True:
        out = call(r.read, n)
        ctx.check(out[0] == 'ret', 'read failed', show(out))
        if out[1] is None:
            break
        got += out[1] if n > 1 else [out[1]]
    ctx.check(same(got, rig.items), 'wrong contents',
              f'reading {n} at a time after {rig.made} items with bound {rig.maxlen} gave '
              f'{len(got)} items {got[:20]!r}..., expected {len(rig.items)} {rig.items[:20]!r}...')


def observers(rng, ctx):
    s = ctx.sched(rng)
    seed = rng.getrandbits(60)
    manual = rng.random() < 0.2

    def main(s):
        st = Stream(rng, ctx, s, n=rng.choice([10, 30, 60]),
                    maxlen=rng.choice([None, 1, 2, 3, 5, 8]), auto_drop=not manual,
                    none_p=rng.choice([0, 0.2]), pause=rng.choice([0.001, 0.02]))
        h = st.h
        index = {id(x): i for i, x in enumerate(st.items)}

        def watch(w):
            rg = random.Random(f'{seed}:{w}')
            naps = pauses(rg)
            rd = h.reader(st.stream, f'w{w}', ignore_no_item_found=True)
            for _ in range(rg.randint(4, 15)):
                x = rg.random()
                if x < 0.6:
                    kw = dict(start=st.key(st.items[0]), stop=st.key(st.items[-1]), peek=True,
                              ignore_no_item_found=True)
                    out = h.do(rd, 'range', kw)
                elif x < 0.85:
                    # a fresh reader's big read also sees the whole window
                    out = h.do(h.reader(st.stream, f'w{w}f', ignore_no_item_found=True), 'read',
                               dict(n=10_000, peek=True))
                else:
                    out = h.do(rd, rg.choice(['head', 'tail']), dict(peek=True))
                ctx.count('observations')
                if out[0] == 'ret' and isinstance(out[1], list) and st.kind not in ('dict',
                                                                                    'lists'):
                    seen = out[1]
                    ctx.check(st.maxlen is None or len(seen) <= st.maxlen, 'bound exceeded',
                              f'{len(seen)} items visible, bound {st.maxlen}: {seen!r}')
                    ix = [index.get(id(y)) for y in seen]
                    ctx.check(None not in ix and all(b == a + 1 for a, b in zip(ix, ix[1:])),
                              'gap or disorder', f'visible: items number {ix}')
                if rg.choice(naps):
                    time.sleep(0.002)

        stop = []

        def dropper():
            rg = random.Random(f'{seed}:d')
            while not stop:
                held = st.held()
                if held:
                    h.drop(st.stream, rg.randint(1, held))
                time.sleep(rg.choice([0.001, 0.02]))

        st.stream.start()
        ts = [threading.Thread(target=watch, args=(w,)) for w in range(rng.randint(1, 3))]
        for t in ts:
            t.start()
        if manual:
            d = threading.Thread(target=dropper)
            d.start()
        for t in ts:
            t.join()
        if manual:
            stop.append(1)
            d.join()
        before = ctx.counters.get('queries overlapping an append', 0)
        h.check()
        if ctx.counters.get('queries overlapping an append', 0) > before:
            ctx.interesting(s.sig)
        st.stream.stop()

    ctx.run(s, main)


def case(rng, ctx):
    if ctx.case_id % 331 == 7:
        return long_run(rng, ctx)
    x = rng.random()
    if x < 0.35:
        stepwise(rng, ctx)
    elif x < 0.6:
        program(rng, ctx, WEIGHTS, check_contents=0.7)
    else:
        observers(rng, ctx)
