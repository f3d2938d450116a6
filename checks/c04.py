"""C04: without auto-drop nothing is lost and a full buffer pauses the source."""
import random
import threading
import time

from lib.conc import Stream, pauses
from lib.consume import Consumer, check_consumer
from lib.harness import call, same, show
from lib.seq import Rig

ID = 'C04'
TECHNIQUE = 'runtime monitoring: occupancy monitor at the source boundary, conservation oracle'
RULE = (
    'sequential histories of feeds and drops without automatic dropping, with contents and source '
    'reads compared exactly; concurrent runs in which consumers read while callers drop, with a '
    'monitor that no source read begins while the buffer certainly holds its bound, and a '
    'conservation check that dropped + held is the whole source output in order; refused drops '
    'with automatic dropping on; non-trivial: the buffer was full at least once'
)
ASSUMPTIONS = ['drop(n) is called with 0 <= n; with more than is held it may fail, and then all or '
               'nothing was dropped']
QUICK = 2000
THOROUGH = 60000
MIN = {'drops': 1000, 'times full': 1000, 'reads checked against occupancy': 5000,
       'refused drops': 100, 'drops of hundreds': 25,
       'windows that hold nothing': 200, 'drops of more than was held': 150}


def sequential(rng, ctx):
    large = ctx.case_id % 29 == 7
    s = ctx.sched(rng, seq=True)

    def main(s):
        rig = Rig(rng, ctx, s, auto_drop=False,
                  maxlen=rng.choice([None, 300, 2000] if large else
                                    [None, 0, 1, 2, 3, 4, 5, 10, 50]))
        rig.start()
        rig.settle()
        rd = rig.reader(ignore_no_item_found=True)
        everything, dropped = [], []
        full = 0
        for _ in range(rng.randint(5, 25)):
            if rng.random() < 0.6:
                rig.feed(rng.randint(1, 400) if large else rng.randint(1, 8))
            else:
                n = rng.choice([0, 1, 1, 1, rng.randint(0, len(rig.items)), len(rig.items)])
                n = min(n, len(rig.items))
                dropped += rig.items[:n]
                if n == 1 and rng.random() < 0.5:
                    out = call(rig.stream.drop)
                    ctx.check(out == ('ret', None), 'drop failed', show(out))
                    del rig.items[:1], rig.keys[:1]
                else:
                    rig.drop(n)
                ctx.count('drops')
                ctx.count('drops of hundreds', n > 99)
                rig.settle()
                rig.shift()
                if rng.random() < 0.1:
                    over_drop(rig, ctx, dropped)
            rig.check_contents('without automatic dropping')
            ctx.count('windows that hold nothing', rig.maxlen == 0)
            if rig.maxlen is not None and len(rig.items) == rig.maxlen:
                full += 1
                ctx.count('times full')
                before = rig.src.reads
                time.sleep(rig.pause * rng.choice([2, 10]))
                ctx.check(rig.src.reads == before, 'full buffer but the source is read',
                          f'{rig.src.reads - before} reads with {len(rig.items)} items held, '
                          f'bound {rig.maxlen}')
                ctx.count('reads checked against occupancy')
            if rng.random() < 0.5:
                rig.query(rd, 'read', dict(n=rng.choice([1, 2, 5])))
        everything = dropped + rig.items + rig.queued
        want = [rig.mk(i) for i in range(rig.made)]
        if rig.kind not in ('rec', 'eqval'):
            ctx.check(same(everything, want), 'items lost', f'{everything!r} != {want!r}')
        # all that waits is delivered in the end
        for _ in range(10_000):
            if not rig.queued or not rig.items:
                break
            rig.drop(rng.randint(1, len(rig.items)))
            rig.settle()
            rig.shift()
            rig.check_contents('while draining')
        if full or rig.maxlen is None:
            ctx.interesting(rig.kind, rig.maxlen, rig.made, len(dropped), full)
        rig.stream.stop()

    ctx.run(s, main)


def over_drop(rig, ctx, dropped):
    """More than is held: all of it goes, or nothing; the call may fail, nothing else may."""
    held = list(rig.items)
    n = len(held) + rig.rng.choice([1, 3, 50])
    out = call(rig.stream.drop, n)
    ctx.count('drops of more than was held')
    rig.settle()
    dropped += held
    del rig.items[:], rig.keys[:]
    rig.shift()
    seen = rig.contents()
    if not (seen[0] == 'ret' and same(seen[1], rig.items or None)):
        # nothing was dropped
        del dropped[len(dropped) - len(held):]
        rig.queued[:0] = rig.items
        rig.items, rig.keys = held, [rig.key(x) for x in held]
        ctx.check(out[0] == 'exc', 'drop of more than was held',
                  f'drop({n}) {show(out)}; then {show(seen)}')
        rig.shift()
    rig.check_contents(f'after a drop({n}) with {len(held)} held')


def refused(rng, ctx):
    s = ctx.sched(rng, seq=True)

    def main(s):
        rig = Rig(rng, ctx, s, auto_drop=True)
        if rng.random() < 0.3:
            from stream2py import StreamBuffer

            rig.stream = StreamBuffer(rig.src, maxlen=rig.maxlen,
                                      sleep_time_on_read_none_s=rig.pause)
        rig.start()
        rig.settle()
        for _ in range(rng.randint(1, 6)):
            rig.feed(rng.randint(1, 6))
            n = rng.randint(0, 3)
            out = call(rig.stream.drop, n) if n else call(rig.stream.drop)
            ctx.check(out[0] == 'exc', 'explicit drop not refused', show(out))
            ctx.count('refused drops')
            rig.check_contents('after a refused drop')
        ctx.interesting('refused', rig.kind, rig.maxlen, rig.made)
        rig.stream.stop()

    ctx.run(s, main)


def concurrent(rng, ctx):
    s = ctx.sched(rng)
    seed = rng.getrandbits(60)

    def main(s):
        m = rng.choice([None, 1, 1, 2, 3, 5])
        st = Stream(rng, ctx, s, n=rng.choice([4, 10, 25]), maxlen=m, auto_drop=False,
                    pause=rng.choice([0.001, 0.01, 0.3]))
        h = st.h
        st.stream.start()
        cons, done = [], []
        mode = rng.choice(['consumer drops', 'dropper'])
        dropped = [0]

        def lead():
            # reads one (or a chunk), then makes room for as many
            rg = random.Random(f'{seed}:lead')
            size = 1 if m == 1 else rg.choice([1, 1, 2, m or 4])
            rd = h.reader(st.stream, 'lead', read_size=size, ignore_no_item_found=True)
            naps = pauses(rg)
            got = []
            while len(got) < st.n:
                out = h.do(rd, 'read', {})
                ctx.check(out[0] == 'ret', 'read failed', show(out))
                if out[1] is None:
                    time.sleep(0.01)
                    continue
                part = out[1] if size > 1 else [out[1]]
                got += part
                h.drop(st.stream, len(part))
                dropped[0] += len(part)
                nap = rg.choice(naps)
                if nap:
                    time.sleep(nap)
            ctx.check(same(got, st.items), 'items lost or reordered',
                      f'a consumer that drops what it read received {got!r}')
            done.append(1)

        def dropper():
            rg = random.Random(f'{seed}:d')
            while True:
                held = st.held()
                if dropped[0] + held >= st.n:
                    break
                if held and (rg.random() < 0.6 or held == m):
                    n = rg.randint(1, held)
                    h.drop(st.stream, n)
                    dropped[0] += n
                time.sleep(rg.choice([0.002, 0.05]))
            done.append(1)

        ts = [threading.Thread(target=lead if mode == 'consumer drops' else dropper)]
        for w in range(rng.randint(0, 2)):
            rg = random.Random(f'{seed}:{w}')
            c = Consumer(h, st.stream, rg.choice(['for', 'next', 'read', 'blocking']), rg,
                         pauses(rg), f'c{w}', size=rg.choice([1, 2, 3]))
            cons.append(c)
            ts.append(threading.Thread(target=c.run))
        for t in ts:
            t.start()
        ts[0].join()
        ctx.check(done, 'dropping thread failed')
        st.wait_all_held(dropped[0])
        left = st.held()
        ctx.check(left == st.n - dropped[0], 'items lost',
                  f'{st.n} produced, {dropped[0]} dropped, {left} held')
        st.stream.stop()
        for t in ts:
            t.join()
        b = h.check()
        ctx.check(same(b.items, st.items), 'source read wrongly', repr(b.items))
        for c in cons:
            check_consumer(ctx, c, st.items, m, 0, False)
        if m is not None:
            full = occupancy(ctx, st)
            if full:
                ctx.interesting(s.sig)
        else:
            ctx.interesting('unbounded', s.sig)

    ctx.run(s, main)


def occupancy(ctx, st):
    """No source read begins while the buffer certainly holds its bound."""
    drops = sorted(d[0] for d in st.h.drops)
    sizes = {d[0]: d[2] for d in st.h.drops}
    got = gone = i = full = 0
    for e in st.src.log:
        if e.what == 'read>':
            while i < len(drops) and drops[i] < e.seq:
                gone += sizes[drops[i]]
                i += 1
            ctx.count('reads checked against occupancy')
            ctx.check(got - gone < st.maxlen, 'full buffer but the source is read',
                      f'{got} appended, at most {gone} dropped, bound {st.maxlen}, at {e!r}')
        elif e.what == 'read<' and e.val is not None:
            got += 1
            while i < len(drops) and drops[i] < e.seq:
                gone += sizes[drops[i]]
                i += 1
            if got - gone >= st.maxlen:
                full += 1
                ctx.count('times full')
    return full


def case(rng, ctx):
    x = rng.random()
    if x < 0.35 or ctx.case_id % 29 == 7:
        sequential(rng, ctx)
    elif x < 0.45:
        refused(rng, ctx)
    else:
        concurrent(rng, ctx)
