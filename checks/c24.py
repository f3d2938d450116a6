"""C24: a stream is itself an iterator over the current session."""
import random
import threading
import time
from types import SimpleNamespace

from lib.harness import SrcError, call, same, show
from lib.sources import KINDS, mk_src

ID = 'C24'
TECHNIQUE = 'runtime monitoring: results of next(stream) against the items each session appended'
RULE = (
    'random sequences of next(stream), stream(), for loops over the stream (partial, interleaved, '
    'to the end), start, stop (also repeated), context entry and exit and restarts without stop, '
    'over sources that end by themselves in some sessions, under controlled schedules, in some '
    'cases with a second thread starting and stopping meanwhile; each result is attributed to its '
    'session and position; non-trivial: the stream was started at least twice and next(stream) was '
    'used in two sessions'
)
ASSUMPTIONS = ['next(stream) is called from one thread']
QUICK = 2500
THOROUGH = 60000
MIN = {'next(stream)': 20000, 'items': 5500, 'None': 2000, 'StopIteration': 2000, 'restarts': 1500,
       'restarts after an end by itself': 300, 'for loops': 1800, 'not started': 1000,
       'next(stream) after a restart': 1000, 'next(stream) of a stopped stream': 2000,
       'items after the stop': 500}


class Ses:
    """What is known of one session."""

    def __init__(self, k):
        self.k = k
        self.made = []
        self.ended = False  # surely stopped, as main knows
        self.must = None  # number of items surely appended when it ended


def case(rng, ctx):
    from stream2py import StreamBuffer
    from stream2py.exceptions import StreamNotStartedError

    s = ctx.sched(rng)
    seed = rng.getrandbits(60)

    def main(s):
        kind = rng.choice(['tuple', 'dict', 'rec', 'lists', 'eqval'])
        mk, key = KINDS[kind]
        n = rng.choice([0, 1, 3, 10, 25])
        times = rng.choice([(0,), (0, 0.002), (0, 0.3), (0, 0, 1.5)])
        pause = rng.choice([0.01, 0.3, 1.5])
        maxlen = rng.choice([None, None, 100, 100, 1, 3])
        ending = rng.choice([0, 0.4, 0.8])
        step = rng.choice([0, 1000, -50])
        sess = {0: Ses(0)}

        def script(session):
            rg = random.Random(f'{seed}:{session}')
            S = sess.setdefault(session, Ses(session))
            S.made = [mk(i + step * session) for i in range(n)]
            out = []
            for x in S.made:
                if rg.random() < 0.2:
                    out.append(('none', rg.choice(times)))
                out.append(('item', x, rg.choice(times)))
            if rg.random() < ending:
                out.append(('raise', rg.choice([SrcError('end'), StopIteration(), EOFError()])))
            return out

        src = mk_src(rng, s, key, by_session=script, pause=pause)
        stream = StreamBuffer(src, maxlen=maxlen, sleep_time_on_read_none_s=pause)
        keeps = maxlen is None or maxlen >= n
        racing = rng.random() < 0.25
        ctx.describe(kind=kind, items=n, maxlen=maxlen, times=times, pause=pause, ending=ending,
                     step=step, racing=racing, mode=s.mode, tick=s.tick, source=type(src).__name__)

        # -- before the first start
        other = StreamBuffer(mk_src('Src', s, key, by_session=script))
        for _ in range(rng.choice([0, 1, 3])):
            f = rng.choice([
                lambda: next(stream), stream.mk_reader, lambda: list(stream), stream,
                lambda: next(iter(stream)), lambda: stream.mk_reader(read_size=2),
                lambda: stream.attach_reader(SimpleNamespace()), lambda: next(other)])
            o = call(f)
            ctx.check(o[0] == 'exc' and isinstance(o[1], StreamNotStartedError), 'not started',
                      show(o))
            ctx.count('not started')

        cur = [0]  # the session as main knows it
        got = {}  # session -> positions delivered by next(stream)
        used = set()

        def where(x):
            for k, S in sess.items():
                for i, y in enumerate(S.made):
                    if x is y:
                        return k, i
            ctx.fail('foreign item', repr(x))

        def appended(k):
            """Number of items surely in the buffer of session k by now."""
            j = 0
            out = items = 0
            for e in src.log:
                if e.what == 'open<':
                    j += 1
                elif j == k and e.what == 'read<' and e.val is not None:
                    items += 1
                elif j == k and e.what in ('read>', 'close>'):
                    out = items
            return out

        def returned(k):
            j = items = 0
            for e in src.log:
                if e.what == 'open<':
                    j += 1
                elif j == k and e.what == 'read<' and e.val is not None:
                    items += 1
            return items

        def receive(seq, o, k0, sure, stopped, who):
            """Judge one result of a reader of session k0 that had received seq."""
            last = seq[-1] if seq else -1
            if o[0] == 'exc':
                ctx.check(isinstance(o[1], StopIteration), f'{who} failed', show(o))
                ctx.count('StopIteration')
                k = k0 if k0 else 0
                if not racing:
                    ctx.check(not stream.is_running, 'StopIteration while running', who)
                    if keeps:
                        ctx.check(last + 1 >= sure, 'StopIteration before the end',
                                  f'{who}: session {k}, {last + 1} of at least {sure} items')
                return True
            if o[1] is None:
                ctx.count('None')
                if not racing:
                    ctx.check(not stopped, 'None from a stopped stream', f'{who}: session {k0}')
                    if keeps:
                        ctx.check(last + 1 >= sure, 'None although items are held',
                                  f'{who}: session {k0}, {last + 1} of at least {sure} items')
                return False
            k, i = where(o[1])
            ctx.count('items')
            if racing:
                return (k, i)
            ctx.check(k == k0, 'item of another session', f'{who}: session {k}, current {k0}')
            if keeps:
                ctx.check(i == last + 1, 'order', f'{who}: item {i} after {last} in session {k}')
            else:
                ctx.check(i > last, 'order', f'{who}: item {i} after {last} in session {k}')
            seq.append(i)
            if stopped:
                ctx.count('items after the stop')
            return False

        def one_next():
            k = cur[0]
            if not k:
                return
            stopped = not racing and not stream.is_running
            sure = appended(k) if not racing else 0
            seq = got.setdefault(k, [])
            ctx.count('next(stream)')
            if stopped:
                ctx.count('next(stream) of a stopped stream')
            used.add(k)
            if k > 1 and not seq:
                ctx.count('next(stream) after a restart')
            o = call(rng.choice([lambda: next(stream), stream, stream.__next__]))
            r = receive(seq, o, k, sure, stopped, 'next(stream)')
            if racing and isinstance(r, tuple):
                old = max(got_racing) if got_racing else (0, -1)
                ctx.check(r > old, 'order', f'item {r} after {old}')
                if keeps:
                    ctx.check(r[1] == (old[1] + 1 if r[0] == old[0] else 0),
                              'session not from its beginning', f'item {r} after {old}')
                got_racing.append(r)

        got_racing = []

        def start(op=None):
            k = cur[0]
            if k and src.log and any(e.what == 'read!' for e in src.log[-6:]):
                ctx.count('restarts after an end by itself')
            o = call(op or stream.start)
            ctx.check(o[0] == 'ret', 'start failed', show(o))
            cur[0] = src.opens
            if k:
                ctx.count('restarts')

        loops = []

        def loop_step():
            """for loops over the stream are readers of their own, of the session they began in."""
            k = cur[0]
            if not k:
                return
            if not loops or rng.random() < 0.3:
                loops.append((k, iter(stream), [], []))
                ctx.count('for loops')
                # the reader is made at the first step
                if racing:
                    loops.pop()
                    return
            j, it, seq, done = rng.choice(loops)
            if not seq and not done:
                loops.remove((j, it, seq, done))
                j = k
                loops.append((j, it, seq, done))
            if done:
                return
            # do not wait for ever for data that is not due
            if len(seq) >= appended(j) and not (j != cur[0] or not stream.is_running):
                return
            if not keeps and j == cur[0] and stream.is_running:
                return
            stopped = j != cur[0] or not stream.is_running
            sure = appended(j)
            o = call(next, it)
            if o[0] == 'exc':
                ctx.check(isinstance(o[1], StopIteration), 'for loop failed', show(o))
                ctx.check(j != cur[0] or not stream.is_running, 'for loop ended', 'while running')
                if keeps:
                    ctx.check(len(seq) >= sure, 'for loop ended early', f'{len(seq)} of {sure}')
                done.append(1)
                return
            kk, i = where(o[1])
            ctx.check(kk == j, 'item of another session', f'for loop: {kk}, began in {j}')
            ctx.check(i == len(seq) if keeps else i > (seq[-1] if seq else -1), 'order',
                      f'for loop: {i} after {seq}')
            seq.append(i)

        eager = rng.choice([0, 40]) if racing else 0
        naps = rng.choice([(0, 0.004), (0.01, 0.35), (0.5, 2)])
        over = []
        starting = []

        def meddle():
            rg = random.Random(f'{seed}:m')
            for _ in range(rg.choice([2, 4])):
                time.sleep(rg.choice([0.01, 0.5, 3]))
                if rg.random() < 0.4:
                    call(stream.stop)
                else:
                    starting.append(1)
                    call(stream.start)
                    del starting[:]
            over.append(1)

        if rng.random() < 0.9:
            start()
        t = None
        if racing:
            start()
            t = threading.Thread(target=meddle)
            t.start()
        for _ in range(rng.choice([10, 25, 50])):
            x = rng.random()
            if x < 0.62:
                for _ in range(rng.choice([1, 1, 2, 5])):
                    one_next()
                for _ in range(eager):  # while a start is under way
                    if not starting:
                        break
                    one_next()
            elif x < 0.72:
                loop_step()
            elif x < 0.80 and not racing:
                o = call(stream.stop)
                ctx.check(o == ('ret', None), 'stop failed', show(o))
            elif x < 0.88 and not racing:
                start(rng.choice([None, None, stream.__enter__]))
            elif x < 0.92 and not racing:
                with stream:
                    cur[0] = src.opens
                    one_next()
            if rng.random() < 0.5:
                time.sleep(rng.choice(naps))
        if t:
            t.join()
        stream.stop()
        time.sleep(5)
        # drained: the rest, then StopIteration again and again
        k = src.opens
        cur[0] = k
        if k and not racing:
            ends = 0
            for _ in range(n + 5):
                before = ctx.counters.get('StopIteration', 0)
                one_next()
                if ctx.counters.get('StopIteration', 0) > before:
                    ends += 1
                    if ends > 2:
                        break
            ctx.check(ends > 2, 'no end', f'session {k}: {got.get(k)}')
            if keeps:
                ctx.check(got[k] == list(range(len(got[k]))) and len(got[k]) >= appended(k)
                          and len(got[k]) <= returned(k), 'drained', f'{got[k]}')
            for j, it, seq, done in loops:
                if not seq and not done:
                    continue
                rest = [where(x) for x in it] if not done else []
                ctx.check(all(a == j for a, _ in rest), 'item of another session', f'{rest}, {j}')
                ctx.check(seq + [b for _, b in rest] == sorted(set(seq + [b for _, b in rest])),
                          'order', f'{seq} {rest}')
        if len(used) > 1:
            ctx.interesting(s.sig, len(used))

    ctx.run(s, main, allow=(SrcError, StopIteration, EOFError, RuntimeError))


_ = same
