"""C16: no query can block the stream, another reader or itself forever."""
import random
import threading
import time

from lib.conc import Bounds, Stream, query_args
from lib.harness import Violation, call, show, weighted
from lib.model import invoke
from lib.sources import KINDS, mk_src

ID = 'C16'
TECHNIQUE = 'runtime monitoring: controlled schedules, deadlock detector and progress bounds'
RULE = (
    '2-6 threads issue queries with every combination of options back to back, without pausing, '
    'some of them failing with any kind of exception, on their own readers while the source produces and callers drop and stop; in other runs the source blocks in a read or in close (or stops its own stream) and everything else has to complete; a run in which '
    'every thread waits, or in which a query, the source or the stop has not completed within a '
    'bound of scheduling points far above what the fair schedules need, is a violation; '
    'non-trivial: a query was preempted while it held or awaited the lock'
)
ASSUMPTIONS = ['a fair scheduler: every runnable thread runs again within a bounded number of '
               'steps', 'each reader is driven by one thread at a time']
QUICK = 2500
THOROUGH = 60000
MIN = {'queries': 20000, 'items made visible': 10000, 'stops completed': 1000,
       'queries wrong in themselves': 500, 'calls beside a blocked source': 1500,
       'stops beside a blocked source': 150, 'stops from inside the source': 30}


class Odd:
    """Compares with nothing: a query with it fails, with an exception of an odd kind."""

    def __init__(self, exc):
        self.exc = exc

    def _no(self, other):
        raise self.exc('odd')

    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = _no
    __hash__ = None


OPS = dict(read=4, next=1, range=6, tail=2, head=1, mk_reader=0.5, len=0.3)


BLOCKED = 20_000.0  # virtual seconds for which the source blocks
PROMPT = 2000.0  # virtual seconds within which everything else has to be done


def stuck(rng, ctx):
    """The source blocks in a read (or in close); everything else goes on and can be stopped."""
    s = ctx.sched(rng, seq=rng.random() < 0.3, max_steps=5_000_000, tick=rng.choice([0, 1e-4]))
    seed = rng.getrandbits(60)

    def main(s):
        from stream2py import StreamBuffer

        mk, key = KINDS[rng.choice(['int', 'tuple', 'str', 'eqval'])]
        n = rng.choice([0, 1, 3, 10])
        items = [mk(i) for i in range(n)]
        where = rng.choice(['read', 'read', 'read', 'close'])

        def block():
            time.sleep(BLOCKED)

        script = [('item', x) for x in items]
        if rng.random() < 0.25:
            # the source stops its own stream
            script.insert(rng.randint(0, n), ('call', lambda: own_stop('stop in read')))
        elif rng.random() < 0.2 and n:
            armed = [rng.randrange(n)]
            plain_key = key

            def key(d):
                if armed and d is items[armed[0]]:
                    armed.clear()
                    own_stop('stop in key')
                return plain_key(d)
        if where == 'read':
            script.append(('call', block))
        src = mk_src(rng.choice(['Src', 'SourceReader', 'StreamSource']), s, key, script,
                     pause=0.01)
        if where == 'close':
            src.slow['close'] = BLOCKED
        manual = rng.random() < 0.3
        maxlen = rng.choice([None, 20, 3])
        shared = isinstance(src, mk_src_class('StreamSource')) and rng.random() < 0.6
        mine = []  # readers of the shared source: the first one is closed to stop it
        ready = [0]
        if shared:
            src.configure_buffer(maxlen=maxlen, auto_drop=not manual)
            stream = None
        else:
            stream = StreamBuffer(src, maxlen=maxlen, auto_drop=not manual)
        ctx.describe(where=where, shared=shared, items=n, maxlen=maxlen, manual=manual)

        def timed(what, fn, *a, **k):
            t0 = s.now
            out = call(fn, *a, **k)
            ctx.check(s.now - t0 < PROMPT, 'blocked by a blocked source',
                      f'{what} took {s.now - t0:.1f} s, the source blocks in {where} '
                      f'({show(out)})')
            ctx.most('virtual milliseconds of a call beside a blocked source',
                     int((s.now - t0) * 1000))
            ctx.count('calls beside a blocked source')
            return out

        def stop():
            if shared:
                for r in mine[:ready[0]]:
                    r.close()
            else:
                stream.stop()

        def own_stop(what):
            out = timed(what, stop)
            ctx.check(out[0] == 'ret', 'stop failed', what, show(out))
            ctx.count('stops from inside the source')

        def end():
            out = timed('stop', rng.choice([stop, lambda: stream.__exit__(None, None, None)
                                            if stream is not None else stop()]))
            ctx.check(out[0] == 'ret', 'stop failed', show(out))
            ctx.count('stops beside a blocked source')

        n_workers = rng.randint(1, 3)
        if shared:
            for _ in range(1 + n_workers):
                # (opening one later might start the source again)
                mine.append(src.open_reader(**{k: v for k, v in opts(rng).items()
                                               if k != 'peek'}))
            ready[0] = 1
        elif rng.random() < 0.5:
            stream.start()
        else:
            stream.__enter__()

        def worker(w):
            rg = random.Random(f'{seed}:{w}')
            if shared:
                r = mine[1 + w]
            else:
                r = timed('a new reader', stream.mk_reader, **opts(rg))[1]
            for _ in range(rg.randint(3, 12)):
                op = rg.choice(['read', 'range', 'tail', 'head', 'next', 'info', 'state', 'new',
                                'drop', 'len', 'next stream'])
                if op == 'info':
                    timed(op, lambda: r.source_reader_info)
                elif op == 'state':
                    timed(op, lambda: (r.is_stopped, stream.is_running if stream else 0))
                elif op == 'new' and not shared:
                    timed(op, stream.mk_reader)
                elif op == 'drop' and not shared:
                    timed(op, stream.drop, 1)
                elif op == 'next stream' and not shared:
                    timed(op, lambda: next(stream))
                elif op == 'len' and not shared:
                    timed(op, lambda: stream.source_reader_info)
                elif op in ('read', 'range', 'tail', 'head', 'next'):
                    timed(op, invoke, r, op, query_args(rg, op, items or [mk(0)], key))
                if rg.random() < 0.5:
                    time.sleep(rg.choice([0.001, 0.3, 3]))
            if shared:
                timed('close', r.close)

        def follower(w):
            rg = random.Random(f'{seed}:f{w}')
            r = timed('a new reader', stream.mk_reader, ignore_no_item_found=True)[1]
            if rg.random() < 0.5:
                call(lambda: [x for x in r])
            else:
                while call(r.read, blocking=True) not in (('ret', None),) and not (
                        ended and s.now - ended[0] > PROMPT):
                    pass
            followers.append(s.now)

        ended, followers = [], []
        ts = [threading.Thread(target=worker, args=(w,)) for w in range(n_workers)]
        fs = [threading.Thread(target=follower, args=(w,)) for w in range(rng.choice([0, 0, 1]))
              ] if not shared else []
        for t in ts + fs:
            t.start()
        time.sleep(rng.choice([0.05, 2, 40]))
        if shared:
            for t in ts:
                t.join()
        if rng.random() < 0.3 and not shared:
            es = [threading.Thread(target=end) for _ in range(2)]
            for t in es:
                t.start()
            for t in es:
                t.join()
        else:
            end()
        ended.append(s.now)
        for t in ts + fs:
            t.join()
        for t in followers:
            ctx.check(t - ended[0] < PROMPT, 'blocked by a blocked source',
                      f'a consumer ended {t - ended[0]:.1f} s after the stop')
            ctx.count('consumers that ended beside a blocked source')
        if rng.random() < 0.3:
            end()
        time.sleep(BLOCKED * 2)
        ctx.check(not src.is_open, 'source thread did not end', 'source still open')
        ctx.interesting('stuck', where, shared, s.sig)

    ctx.run(s, main)


def mk_src_class(name):
    import stream2py

    return getattr(stream2py, name)


def case(rng, ctx):
    if rng.random() < 0.12:
        return stuck(rng, ctx)
    s = ctx.sched(rng, max_steps=5_000_000, tick=rng.choice([1e-3, 5e-3]))
    seed = rng.getrandbits(60)
    manual = rng.random() < 0.2

    def main(s):
        st = Stream(rng, ctx, s, n=rng.choice([4, 10, 20]), auto_drop=not manual,
                    maxlen=rng.choice([None, 1, 2, 3, 5, 20]),
                    pause=rng.choice([0.001, 0.01]), none_p=rng.choice([0, 0, 0.3]),
                    delay_p=rng.choice([0, 0, 0.5]))
        over = []
        worst = [0]
        last_item = st.items[-1]

        def worker(w):
            rg = random.Random(f'{seed}:{w}')
            rds = [st.stream.mk_reader(**opts(rg)) for _ in range(rg.randint(1, 2))]
            favourite = rg.choice([None, None, 'range', 'read', 'tail'])
            k = 0
            while not over:
                k += 1
                op = favourite or weighted(rg, OPS.items())
                r = rg.choice(rds)
                b0 = s.steps
                if op == 'mk_reader':
                    call(st.stream.mk_reader)
                elif op == 'len':
                    call(lambda: st.stream.is_running)
                elif op == 'read' and rg.random() < 0.1:
                    call(r.read, blocking=True)
                elif rg.random() < 0.03:
                    # a query that is wrong in itself fails and leaves the stream alone
                    ctx.count('queries wrong in themselves')
                    odd = Odd(rg.choice([ZeroDivisionError, KeyError, OSError, TypeError,
                                         KeyboardInterrupt, GeneratorExit]))
                    bad = rg.choice([lambda: r.range(odd, odd), lambda: r.range(None, None),
                                     lambda: r.range(odd, odd, start_le=True),
                                     lambda: r.range(odd, odd, stop_ge=True),
                                     lambda: r.read('x'), lambda: r.read(None, strict_n=True),
                                     lambda: r.range(st.key(st.items[0]), st.key(last_item),
                                                     'x'), lambda: r.read(odd),
                                     lambda: st.stream.mk_reader(nonsense=1)])
                    try:
                        call(bad)
                    except (KeyboardInterrupt, GeneratorExit):
                        pass
                else:
                    out = call(invoke, r, op, query_args(rg, op, st.items, st.key))
                    if out[0] == 'exc' and not isinstance(out[1], (ValueError, LookupError,
                                                                   StopIteration)):
                        raise Violation('query failed', f'{op}: {show(out)}')
                ctx.count('queries')
                worst[0] = max(worst[0], s.steps - b0)
                # readers overlap for ever: only every so often do they all pause
                if busy == 0 or k % busy == 0:
                    time.sleep(0.001)

        def dropper():
            rg = random.Random(f'{seed}:d')
            while not over:
                held = st.held()
                if held:
                    call(st.stream.drop, rg.randint(1, held))
                time.sleep(0.002)

        busy = rng.choice([0, 1, 7, 10 ** 9, 10 ** 9, 10 ** 9])
        st.stream.start()
        ts = [threading.Thread(target=worker, args=(w,)) for w in range(rng.randint(2, 6))]
        if manual:
            ts.append(threading.Thread(target=dropper))
        for t in ts:
            t.start()
        # the source's whole output becomes visible although the readers never let up
        last = st.key(st.items[-1])
        mine = st.stream.mk_reader(ignore_no_item_found=True)
        begun = s.steps
        seen = 0
        limit = (120_000 if manual else 15_000) * (st.n + 4)
        while True:
            if manual:
                if st.src.drained:
                    break
            else:
                out = call(mine.tail, peek=True, ignore_no_item_found=True)
                if out[0] == 'exc':
                    raise Violation('query failed', show(out))
                if out[1] is not None and not last > st.key(out[1]):
                    break
            if s.steps - begun > limit:
                raise Violation('source starved', f'{st.src.pos} reads done after {limit} steps '
                                f'with {len(ts)} busy threads\n' + s.dump())
            if not st.stream.is_running:
                raise Violation('stream died', 'the stream stopped by itself')
            time.sleep(0.001)
        seen = st.n
        ctx.count('items made visible', seen)
        used = s.steps - begun
        b1 = s.steps
        if rng.random() < 0.5:
            st.stream.stop()
            ctx.count('stops completed')
            over.append(1)
        else:
            over.append(1)
            st.stream.stop()
            ctx.count('stops completed')
        for t in ts:
            t.join()
        st.stream.join(60)
        ctx.check(not st.src.is_open, 'source thread did not end', 'source still open')
        ctx.describe(threads=len(ts), steps_to_deliver=used, steps_to_stop=s.steps - b1,
                     longest_query=worst[0])
        ctx.most('steps to deliver per item, in 1/1000 of the limit', used * 1000 // limit)
        ctx.most('steps to stop', s.steps - b1)
        ctx.most('steps of one query', worst[0])
        if s.switches > 20:
            ctx.interesting(s.sig)

    ctx.run(s, main)


def opts(rg):
    kw = {}
    if rg.random() < 0.4:
        kw['read_size'] = rg.choice([1, 2, 3])
    if rg.random() < 0.6:
        kw['ignore_no_item_found'] = rg.random() < 0.8
    if rg.random() < 0.2:
        kw['strict_n'] = True
    return kw


_ = Bounds
