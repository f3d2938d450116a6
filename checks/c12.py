"""C12: the source is opened, read and closed in strict protocol."""
import random
import threading
import time

from lib.harness import call, show
from lib.sources import KIND_NAMES, KINDS, mk_src

ID = 'C12'
TECHNIQUE = 'runtime monitoring: protocol automaton over the source boundary under controlled schedules'
RULE = (
    'streams driven by 1-4 threads issuing random sequences of start, stop (also before any start '
    'and repeatedly), context entry and exit, while opening, reading, describing and closing take '
    'from no time to several times the delay of stop, with stops from inside the source and threads that cannot be started; every '
    'open, read and close is fed to the automaton closed-open-reading-closed; non-trivial: at '
    'least two sessions, or a stop while the source was busy'
)
ASSUMPTIONS = [
    'start is not called from inside the source (that would overlap by definition)',
    'every call of the source returns; a source that never returns cannot be restarted',
]
QUICK = 3000
THOROUGH = 70000
MIN = {'sessions': 3000, 'stops': 3000, 'stops while the source was busy': 300,
       'starts while running': 300, 'stops before any start': 100,
       'questions from inside the source': 600, 'reads': 10000, 'contexts left by an exception': 200, 'starts without a thread': 150}
END = 60.0  # virtual seconds; longer than any source call and pause


def case(rng, ctx):
    from stream2py import StreamBuffer

    alone = rng.random() < 0.35
    s = ctx.sched(rng, seq=alone, **({'fairness': 10**9} if alone else {}))
    seed = rng.getrandbits(60)

    def main(s):
        kind = rng.choice(KIND_NAMES)
        mk, key = KINDS[kind]
        naps = rng.choice([(0, 0.005), (0.01, 0.3), (0.5, 1.2), (0, 0.1, 2.5)])
        pause = rng.choice([0.01, 0.1, 0.9, 1.5, 5.0])
        times = rng.choice([(0,), (0, 0.001), (0, 0.4), (0.9, 1.05, 3.0), (0, 0, 0, 2.2),
                            (0, 0, 13.0)])
        insider = rng.random() < 0.15
        asks = rng.random() < 0.25

        def script(session):
            rg = random.Random(f'{seed}:{session}')
            out = []
            for i in range(rg.choice([0, 2, 6, 15])):
                x = rg.random()
                if x < 0.3:
                    out.append(('none', rg.choice(times)))
                out.append(('item', mk(i), rg.choice(times)))
            if insider and rg.random() < 0.7:
                out.insert(rg.randint(0, len(out)), ('call', inside))
            if asks:
                for _ in range(rg.choice([1, 3, 8])):
                    out.insert(rg.randint(0, len(out)), ('call', ask))
            return out

        stops = []  # (session open before the call, call, return)

        def inside():
            ctx.count('stops from inside the source')
            stream.stop()
            return None

        def ask():
            """The source looks at its own stream while it is being read."""
            ctx.count('questions from inside the source')
            time.sleep(rng.choice(times))
            o = call(lambda: stream.is_running)
            ctx.check(o[0] == 'ret' and type(o[1]) is bool, 'is_running failed', show(o))
            o = call(stream.mk_reader)
            ctx.check(o[0] == 'ret', 'mk_reader failed', show(o))
            return None

        src = mk_src(rng, s, key, by_session=script, pause=rng.choice([None, pause]))
        for what in ('open', 'close', 'info'):
            src.slow[what] = rng.choice(times)
        stream = StreamBuffer(src, maxlen=rng.choice([None, 1, 3, 100]),
                              auto_drop=rng.random() < 0.8, sleep_time_on_read_none_s=pause)
        n_threads = 1 if alone else rng.choice([1, 1, 2, 3, 4])
        ctx.describe(kind=kind, threads=n_threads, pause=pause, times=times, naps=naps,
                     slow=dict(src.slow), insider=insider, mode=s.mode, tick=s.tick,
                     source=type(src).__name__)
        starts = [0]
        failed = [0]
        scarce = rng.random() < 0.15
        watched = []  # (session, seq at which its readers were seen to report stopped)

        def opened():
            """Number of the session whose open had completed."""
            return sum(e.what == 'open<' for e in src.log)

        def start(op):
            running = [e.what for e in src.log][-1:]
            me = s.current
            if scarce and rng.random() < 0.4:
                s.no_thread.add(me)
            o = call(op)
            s.no_thread.discard(me)
            ctx.check(o[0] == 'exc' or o[1] in (None, stream), 'start failed', show(o))
            if scarce and o[0] == 'exc' and 'thread' in str(o[1]):
                failed[0] += 1
                ctx.count('starts without a thread')
                if alone:
                    ctx.check(stream.is_running is False, 'running without a thread', '')
                return running
            ctx.check(o[0] == 'ret', 'start failed', show(o))
            starts[0] += 1
            return running

        def stop(op):
            sess = opened()
            if src.busy is not None:
                ctx.count('stops while the source was busy')
                busy[0] = True
            if not starts[0]:
                ctx.count('stops before any start')
            c = s.tick_seq()
            o = call(op)
            stops.append((sess, c, s.tick_seq()))
            ctx.count('stops')
            ctx.check(o[0] == 'ret' and not o[1], 'stop failed', show(o))

        def leave(rg):
            """Leave the context, also because of an exception (which is not swallowed)."""
            e = rg.choice([None, None, ValueError('body'), KeyboardInterrupt(), SystemExit(1),
                           StopIteration(), GeneratorExit(), OSError(), TimeoutError()])
            ctx.count('contexts left by an exception', e is not None)
            exits = rg.choice([stream.__exit__, stream.exit])
            return exits(*((None,) * 3 if e is None else (type(e), e, e.__traceback__)))

        busy = [False]

        def watch(rg):
            from stream2py.exceptions import StreamNotStartedError

            o = call(stream.mk_reader)
            if o[0] == 'exc':
                ctx.check(isinstance(o[1], StreamNotStartedError), 'mk_reader failed', show(o))
                return
            r = o[1]
            t = rg.choice([0.001, 0.05])
            for _ in range(400):
                if r.is_stopped:
                    watched.append((r.source_reader_info['session'], s.tick_seq()))
                    return
                time.sleep(t)

        def drive(rg, n):
            for _ in range(n):
                x = rg.random()
                ctx.note(f'{threading.current_thread().name} {x:.2f} at {s.now:.3f}')
                if x < 0.3:
                    if call(lambda: stream.is_running) == ('ret', True):
                        ctx.count('starts while running')
                    start(stream.start)
                elif x < 0.6:
                    stop(stream.stop)
                elif x < 0.75:
                    start(rg.choice([stream.__enter__, stream.enter]))
                    if rg.random() < 0.8:
                        time.sleep(rg.choice(naps))
                    stop(lambda: leave(rg))
                elif x < 0.85:
                    watch(rg)
                else:
                    call(lambda: stream.is_running)
                if rg.random() < 0.7:
                    time.sleep(rg.choice(naps))

        if rng.random() < 0.2:
            for _ in range(rng.randint(1, 3)):
                stop(stream.stop)
        n_ops = rng.choice([2, 4, 7])
        ts = [threading.Thread(target=drive, args=(random.Random(f'{seed}:t{i}'), n_ops))
              for i in range(n_threads - 1)]
        for t in ts:
            t.start()
        drive(random.Random(f'{seed}:main'), n_ops)
        for t in ts:
            t.join()
        stop(stream.stop)
        ctx.check(stream.is_running is False, 'is_running after stop')
        time.sleep(END)
        check_log(ctx, src, starts[0], failed[0], stops, watched, alone)
        ctx.count('sessions', src.opens)
        ctx.count('reads', src.reads)
        if src.opens >= 2 or busy[0]:
            ctx.interesting(s.sig, src.opens, len(src.log))

    ctx.run(s, main, allow=())


def check_log(ctx, src, starts, failed, stops, watched, alone):
    log = [e for e in src.log if not e.what.startswith('info')]
    tail = log[-60:]
    over = [p for p in src.overlaps if 'info' not in p]
    ctx.check(not over, 'calls overlap', f'(began, while in) {over[:5]}; {tail}')
    state = 'closed'
    session = 0
    reads = {}
    for e in log:
        w = e.what
        if w == 'open>':
            ctx.check(state == 'closed', 'opened while open', f'{e} in state {state}; {tail}')
            state = 'opening'
        elif w == 'open<':
            state = 'open'
            session += 1
        elif w == 'read>':
            ctx.check(state == 'open', 'read while not open', f'{e} in state {state}; {tail}')
            state = 'reading'
            reads.setdefault(session, []).append(e.seq)
        elif w == 'read<':
            state = 'open'
        elif w == 'close>':
            ctx.check(state == 'open', 'closed while not open', f'{e} in state {state}; {tail}')
            state = 'closing'
        elif w == 'close<':
            state = 'closed'
    ctx.check(state == 'closed', 'not closed in the end', f'state {state}; {tail}')
    ctx.check(starts <= session <= starts + failed, 'opens differ from starts',
              f'{session} opens, {starts} starts, {failed} could not start a thread')
    for sess, c, r in stops:
        if sess:
            after = [q for q in reads.get(sess, ()) if q > (c if alone else r)]
            ctx.check(len(after) <= 1, 'reads go on after stop',
                      f'session {sess} stopped by the call {c}..{r} began reads {after[:9]}')
    for sess, w in watched:
        ctx.count('sessions seen to stop')
        after = [q for q in reads.get(sess, ()) if q > w]
        ctx.check(len(after) <= 1, 'reads go on after stop',
                  f'session {sess} reported stopped at {w} and began reads {after[:9]}')
