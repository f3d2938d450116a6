"""C20: source and readers are polled at the configured pace."""
import math
import random
import threading
import time

from lib.harness import call, same, show
from lib.sources import KINDS, mk_src

ID = 'C20'
TECHNIQUE = 'runtime monitoring: virtual-time gaps at the source boundary and delivery times of waiting readers'
RULE = (
    'streams with the pause given to the stream, declared by the source or neither (0 to 30 s), '
    'made by StreamBuffer, SourceReader.stream_buffer or StreamSource, over sources mixing items, '
    'runs of no data and slow reads, with and without automatic dropping; every gap between two '
    'reads is measured in exact virtual time, as is every delivery to waiting readers with '
    'intervals of their own; non-trivial: a pause or a wait was measured'
)
ASSUMPTIONS = ['nobody but the code under test takes time (virtual time)']
QUICK = 2500
THOROUGH = 120000
MIN = {'pauses measured': 6000, 'gaps after an item': 6000, 'pauses of a full buffer': 300,
       'waits of readers': 1200, 'pause given': 500, 'pause 0 given': 30,
       'pause declared': 200, 'default pause': 150, 'default interval': 80, 'long idle times': 10,
       'waits without an interval': 60, 'waits for an item': 600}
EPS = 0.004
PAUSES = [0, 0.001, 0.05, 0.25, 1, 2.5, 30]


def case(rng, ctx):
    from stream2py import StreamBuffer

    busy = ctx.case_id % 17 == 5  # readers with an interval of 0
    s = ctx.sched(rng, tick=0, oversleep=2e-3 if busy else 1e-5)
    seed = rng.getrandbits(60)

    def main(s):
        mk, key = KINDS['int']
        pauses = [0.001, 0.05, 0.25] if busy else [None] * 4 + PAUSES
        given = rng.choice(pauses)
        declared = rng.choice(pauses)
        way = rng.choice(['StreamBuffer', 'StreamBuffer', 'stream_buffer', 'StreamSource'])
        pause = given if given is not None else declared if declared is not None else 0.3
        ctx.count('pause given' if given is not None else 'pause declared'
                  if declared is not None else 'default pause')
        if given == 0 and declared:
            ctx.count('pause 0 given')
        n = rng.choice([3, 8, 20]) if not busy else rng.choice([2, 4, 8])
        script = []
        i = 0
        long = pause > 5
        idle = ctx.case_id % 50 == 9 and pause <= 0.3 and not busy  # hundreds of polls in a row
        ctx.count('long idle times', idle)
        if idle:
            n = 3
        while i < n:
            if idle:
                script += [('none', 0)] * 250
            for _ in range(rng.choice([0, 0, 0, 1, 3] if not long else [0, 0, 0, 0, 1])):
                script.append(('none', rng.choice([0, 0, 0.2])))
            for _ in range(rng.choice([1, 1, 4])):
                script.append(('item', mk(i), rng.choice([0, 0, 0, 0.07, 0.15 if busy else 0.6])))
                i += 1
        n = i
        auto = way == 'StreamSource' or rng.random() < 0.7
        maxlen = rng.choice([None, 100, 2] if auto else [1, 2, 4])
        kind = {'StreamBuffer': 'Src', 'stream_buffer': 'SourceReader',
                'StreamSource': 'StreamSource'}[way]
        src = mk_src(kind, s, key, script, pause=declared)
        kw = dict(maxlen=maxlen, sleep_time_on_read_none_s=given)
        if not auto:
            kw['auto_drop'] = False
        if given is None and rng.random() < 0.5:
            del kw['sleep_time_on_read_none_s']
        if way == 'StreamBuffer':
            stream = StreamBuffer(src, **kw)
        elif way == 'stream_buffer':
            stream = src.stream_buffer(**kw)
        else:
            src.configure_buffer(**kw)
            stream = None
        ctx.describe(way=way, given=given, declared=declared, script=script[:60], auto_drop=auto,
                     maxlen=maxlen, mode=s.mode)
        waiting = []
        ts = []
        if stream is not None:
            stream.start()
            new = stream.mk_reader
        else:
            first = src.open_reader()
            new = src.open_reader
        if auto and (maxlen is None or maxlen == 100) and pause:
            for w in range(rng.choice([0, 1, 2])):
                rec = []
                waiting.append(rec)
                ts.append(threading.Thread(target=waiter, args=(
                    ctx, s, new(), rec, n, random.Random(f'{seed}:{w}'), busy, long)))
        for t in ts:
            t.start()
        drops = []
        if not auto:
            r = stream.mk_reader(ignore_no_item_found=True)
            rg = random.Random(f'{seed}:d')
            got = 0
            for _ in range(20000):
                if got >= n:
                    break
                o = call(r.range, 0, 10 ** 9, peek=True, ignore_no_item_found=True)
                ctx.check(o[0] == 'ret', 'range failed', show(o))
                k = min(rg.choice([1, 1, maxlen]), len(o[1] or ()))
                if k:
                    drops.append((s.now, k))
                    o = call(stream.drop, k)
                    ctx.check(o == ('ret', None), 'drop failed', show(o))
                    got += k
                time.sleep(rg.choice([0.013, 0.4, 1.7]))
        else:
            limit = s.now + 60 + (pause + 0.8) * (len(script) + 2)
            while not src.drained and s.now < limit:
                time.sleep(0.11)
            ctx.check(src.drained, 'source starved', f'{src.pos} of {len(script)}')
            time.sleep(rng.choice([0, 1]) if pause == 0 else pause * rng.choice([0.5, 2.5]))
        for t in ts:
            t.join()
        stop_at = s.now
        if stream is not None:
            stream.stop()
        else:
            src.exit()
        time.sleep(2)
        measure(ctx, src, pause, stop_at, auto, maxlen, drops, 5 * EPS if busy else EPS)
        for rec in waiting:
            prompt(ctx, src, rec)

    ctx.run(s, main, allow=())


def measure(ctx, src, pause, stop_at, auto, maxlen, drops, eps):
    reads = []
    for e in src.log:
        if e.what == 'read>':
            reads.append([e.t, None, None])
        elif e.what == 'read<':
            reads[-1][1:] = [e.t, e.val]
    total = 0
    measured = 0
    for (b0, e0, v0), (b1, _, _) in zip(reads, reads[1:]):
        gap = b1 - e0
        if v0 is not None:
            total += 1
        if b1 > stop_at:
            break
        if v0 is None:
            measured += 1
            ctx.count('pauses measured')
            ctx.check(gap >= pause - 1e-9, 'read again too soon',
                      f'{gap} s after no data; the pause is {pause}')
            ctx.check(gap <= pause + eps, 'read again too late',
                      f'{gap} s after no data; the pause is {pause}')
            continue
        if any(abs(t - e0) <= eps for t, _ in drops):
            continue  # dropped just then: full or not depends on the schedule
        full = not auto and total - sum(k for t, k in drops if t <= e0 + eps) >= maxlen
        if not full:
            ctx.count('gaps after an item')
            ctx.check(gap <= eps, 'pause while data is delivered', f'{gap} s after an item')
        else:
            ctx.count('pauses of a full buffer')
            measured += 1
            space = next((t for t, _ in drops if t > e0), None)
            ctx.check(space is not None and b1 >= space - eps, 'read while full',
                      f'read at {b1}, full since {e0}, space at {space}')
            if pause:
                k = round(gap / pause)
                ctx.check(k >= 1 and abs(gap - k * pause) <= eps * max(1, k),
                          'full buffer polled off pace', f'{gap} s, the pause is {pause}')
            # with a pause of 0 the clock only advances by the source thread's own polling
            ctx.check(b1 - space <= pause + (eps if pause else 1), 'read too late after space was made',
                      f'{b1 - space} s; the pause is {pause}')
    if measured:
        ctx.interesting(pause, src.pos, total, repr(src.script)[:2000])


def prompt(ctx, src, rec):
    """Readers wait no longer than an interval from when the item is there."""
    held, new = [], 0
    for e in src.log:
        if e.what == 'read<' and e.val is not None:
            new += 1
        elif e.what in ('read>', 'close>'):
            held += [e.t] * new
            new = 0
    for i, t0, t1, d in rec:
        ctx.count('waits without an interval', not d and t1 > t0)
        ctx.count('waits for an item', d and t1 > held[i] > t0 + EPS)
        ctx.check(t1 <= max(t0, held[i]) + (d + EPS if d else 5 * EPS),
                  'reader looks at another pace',
                  f'item {i} was there at {held[i]}, asked for at {t0}, given at {t1}; interval {d}')


def waiter(ctx, s, r, rec, n, rg, busy, long):
    """A reader waiting for each item, by iteration or blocking reads."""
    d = 0 if busy else rg.choice([None, 0.1 if long else 0.01, 0.1, 0.37, 2])
    if d is not None:
        r.set_sleep_time_on_iter_none(d)
    else:
        ctx.count('default interval')
        d = 0.1
        if rg.random() < 0.3:  # back to the default
            r.set_sleep_time_on_iter_none(0.55)
            r.set_sleep_time_on_iter_none()
    how = rg.choice(['for', 'blocking', 'mixed'])
    it = iter(r)
    for i in range(n):
        t0 = s.now
        if how == 'for' or how == 'mixed' and rg.random() < 0.5:
            x = next(it)
        else:
            x = r.read(blocking=True)
        wait = s.now - t0
        ctx.check(same(x, i), 'item', f'{x!r}, due {i}')
        rec.append((i, t0, s.now, d))
        if not busy and wait > EPS:
            ctx.count('waits of readers')
            k = math.floor(wait / d + 0.5)
            ctx.check(k >= 1 and abs(wait - k * d) <= EPS * max(1, k),
                      'reader looks at another pace',
                      f'waited {wait} s, the interval is {d} ({how})')
        if rg.random() < 0.2:
            time.sleep(rg.choice([0.05, 1]))
        if not busy and rg.random() < 0.05:
            d = rg.choice([0.2 if long else 0.02, 0.5])
            r.set_sleep_time_on_iter_none(d)
