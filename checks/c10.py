"""C10: iteration ends exactly when the stream is stopped and drained."""
import random
import threading
import time

from lib.conc import Bounds, Stream, pauses
from lib.consume import Consumer, check_consumer
from lib.harness import SrcError, call, same, show

ID = 'C10'
TECHNIQUE = 'runtime monitoring: controlled schedules, end-of-stream oracle on recorded histories'
RULE = (
    'streams stopped at random moments, by stop() from the main thread or a consumer, by leaving '
    'the context or by a failing source, while 1-4 consumers iterate or call next, and streams '
    'whose consumer drops all it reads; every None and '
    'StopIteration is checked against what was certainly true when the call was made, and every '
    'ended consumer must have received all that was in the buffer before the stop; non-trivial: '
    'the stop came while items were still being delivered'
)
ASSUMPTIONS = ['readers do not peek by default and are not strict',
               'an item the source was still returning when stop was called may be delivered or not']
QUICK = 2500
THOROUGH = 60000
MIN = {'StopIteration checked': 500, 'None checked': 300, 'items delivered': 5000,
       'stops during delivery': 300, 'items drained': 500}


def draining(rng, ctx):
    """Consumers of a stream without automatic dropping that empty the buffer as they go."""
    s = ctx.sched(rng)

    def main(s):
        st = Stream(rng, ctx, s, n=rng.choice([1, 3, 8, 20]), auto_drop=False,
                    maxlen=rng.choice([None, 1, 2, 4, 100]), pause=rng.choice([0.001, 0.01, 0.3]))
        stream = st.stream
        got = []
        stopping = []
        size = rng.choice([1, 1, 2, 3])
        loop = rng.random() < 0.5
        seed = rng.getrandbits(60)

        def consume():
            rg = random.Random(seed)
            r = stream.mk_reader(read_size=size, ignore_no_item_found=rg.random() < 0.5)
            it = iter(r) if loop else r
            while True:
                o = call(next, it)
                if o[0] == 'exc':
                    ctx.check(isinstance(o[1], StopIteration), 'next failed', show(o))
                    ctx.check(stopping, 'StopIteration while running',
                              f'after {len(got)} of {st.n} items, all dropped')
                    return
                if o[1] is None:
                    ctx.check(not loop, 'a for loop was given None')
                    time.sleep(0.01)
                    continue
                xs = o[1] if size > 1 else [o[1]]
                got.extend(xs)
                ctx.count('items delivered', len(xs))
                for _ in xs:
                    o = call(stream.drop)
                    ctx.check(o == ('ret', None), 'drop failed', show(o))
                    if not stopping:
                        ctx.count('items drained')
                if rg.random() < 0.3:
                    time.sleep(rg.choice([0.001, 0.05]))

        stream.start()
        t = threading.Thread(target=consume)
        t.start()
        for _ in range(20000):
            if len(got) >= st.n:
                break
            if not t.is_alive():
                break
            time.sleep(0.05)
        time.sleep(rng.choice([0, 0.2, 1]))
        stopping.append(1)
        stream.stop()
        t.join()
        ctx.check(same(got, st.items), 'items', f'received {got!r}, due {st.items!r}')
        ctx.interesting('draining', s.sig)

    ctx.run(s, main, allow=())


def case(rng, ctx):
    if rng.random() < 0.12:
        return draining(rng, ctx)
    s = ctx.sched(rng)
    seed = rng.getrandbits(60)

    def main(s):
        how = rng.choice(['stop', 'stop', 'stop', 'fail', 'fail', 'context', 'consumer'])
        ends = None
        if how == 'fail':
            ends = rng.choice([SrcError('source ended'), StopIteration(), OSError('gone'),
                               KeyError('x')])
        st = Stream(rng, ctx, s, n=rng.choice([0, 1, 3, 8, 20, 40]) or 1, ends=ends,
                    maxlen=rng.choice([None, None, 1, 2, 4, 100]),
                    pause=rng.choice([0.001, 0.01, 0.3]))
        h = st.h
        stop_call, stop_ret = [], []

        def stop():
            stop_call.append(s.tick_seq())
            st.stream.stop()
            stop_ret.append(s.tick_seq())

        cons, ts = [], []
        naps = pauses(rng)
        for w in range(rng.randint(1, 4)):
            rg = random.Random(f'{seed}:{w}')
            size = rg.choice([1, 1, 2, 3, 7])
            if rg.random() < 0.5:
                c = Consumer(h, st.stream, rg.choice(['for', 'for', 'stream_for']), rg, naps,
                             f'c{w}', size=size, lazy=rg.choice([0, 0, 0.05, 2]))
                run = c.run
            else:
                c = Consumer(h, st.stream, 'next', rg, naps, f'c{w}', size=size,
                             lazy=rg.choice([0, 0, 0.05, 2]))
                run = by_next(ctx, s, st, c, stop_call, stop_ret)
            cons.append(c)
            ts.append(threading.Thread(target=run))
        if how == 'consumer':
            rg = random.Random(f'{seed}:s')

            def stopper():
                k = rg.randint(0, st.n)
                r = st.stream.mk_reader()
                for i, x in enumerate(r):
                    if i >= k or same(x, st.items[-1]):
                        break
                if not stop_call:
                    stop()

            ts.append(threading.Thread(target=stopper))
        st.stream.start()
        if rng.random() < 0.2:
            time.sleep(rng.choice([0.01, 0.3]))
        for t in ts:
            t.start()
        if how in ('stop', 'context', 'consumer'):
            end = rng.randint(0, st.n + 2)
            for _ in range(rng.choice([3, 30, 300])):
                if st.src.pos >= end or stop_call:
                    break
                time.sleep(rng.choice([0.0005, 0.004]))
            else:
                ctx.count('stops by patience')
            if how == 'context':
                stop_call.append(s.tick_seq())
                st.stream.__exit__(None, None, None)
                stop_ret.append(s.tick_seq())
            elif how == 'stop':
                stop()
            else:
                for t in ts:
                    t.join()
                if not stop_call:
                    stop()
        for t in ts:
            t.join()
        b = h.check()
        failed = [e.seq for e in st.src.log if e.what == 'read!']
        if stop_call and not (failed and failed[0] < stop_call[0]):
            must = b.lo(stop_call[0])
        else:
            must = len(b.items)
        if failed:
            # a source failure is itself the stop: all it returned before was put in the buffer
            if not stop_call or failed[0] < stop_call[0]:
                must = len(b.items)
        for c in cons:
            ctx.check(c.ended, 'consumer did not end', c.who)
            keeps = st.maxlen is None or st.maxlen >= len(b.items)
            seq = check_consumer(ctx, c, st.items, st.maxlen, must, keeps)
            ctx.count('ends checked')
            if seq and c.end_seq and seq[-1] >= 1:
                ctx.interesting(how, s.sig)
        if stop_call and must < st.n or failed:
            ctx.count('stops during delivery')
        # a reader made after the end drains the window and ends as well
        r = st.stream.mk_reader(read_size=rng.choice([1, 3]))
        late = []
        for x in r:
            late += x if isinstance(x, list) and r.read_size > 1 else [x]
            ctx.check(len(late) <= st.n, 'a late reader does not end')
        held = len(b.items)
        lo = 0 if st.maxlen is None else max(0, held - st.maxlen)
        # an item still in flight may have been dropped by the stop
        slack = [held] if not stop_call else range(b.lo(stop_call[0]), held + 1)
        okays = [st.items[(0 if st.maxlen is None else max(0, k - st.maxlen)):k] for k in slack]
        ctx.check(any(same(late, o) for o in okays), 'late reader',
                  f'a reader made after the end got {late!r}, window starts at {lo}')
        for _ in range(2):
            o = call(next, r)
            ctx.check(o[0] == 'exc' and isinstance(o[1], StopIteration),
                      'no StopIteration after the end', show(o))
        if not stop_call:
            st.stream.stop()

    ctx.run(s, main, allow=(SrcError, StopIteration, OSError, KeyError))


def by_next(ctx, s, st, c, stop_call, stop_ret):
    """A consumer calling next(reader), checking each None and StopIteration."""

    def run():
        h = c.h
        if c.lazy:
            time.sleep(c.lazy)
        c.many = c.size > 1
        rd = h.reader(st.stream, c.who, read_size=c.size,
                      ignore_no_item_found=c.rg.random() < 0.5)
        r = rd[0]
        while True:
            surely_stopped = bool(stop_ret) or r.is_stopped
            out = h.do(rd, 'next')
            if out[0] == 'exc':
                ctx.check(isinstance(out[1], StopIteration), 'next failed', show(out))
                c.forget()
                ctx.count('StopIteration checked')
                failed = any(e.what == 'read!' for e in st.src.log)
                ctx.check(stop_call or failed, 'StopIteration while running', c.who)
                for _ in range(2):
                    o = call(next, r)
                    if o[0] == 'ret':
                        # an item still in flight when the stream stopped
                        ctx.check(o[1] is not None and stop_call and not failed,
                                  'next went on after StopIteration', show(o))
                        c.got += o[1] if c.many else [o[1]]
                c.finish()
                return
            if out[1] is None:
                ctx.count('None checked')
                ctx.check(not surely_stopped, 'None from a stopped stream',
                          f'{c.who}: next returned None although the stream had stopped')
                time.sleep(c.rg.choice([0.003, 0.03]))
                continue
            c.take(out)
            c.nap()

    return run


_ = Bounds
