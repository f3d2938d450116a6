"""C31: what a stream reports of its state is true."""
import random
import threading
import time

from lib.harness import SrcError, call, same, show
from lib.oddinfo import odd_infos
from lib.sources import KINDS, mk_src

ID = 'C31'
TECHNIQUE = 'runtime monitoring: state reports polled by threads, judged offline against the source boundary'
RULE = (
    'one thread starts, stops, restarts and leaves streams whose sources take time and fail when '
    'opened, described, read or closed (infos also falsy and odd), while 1-3 threads poll is_running, source_reader_info, '
    'is_stopped and info of readers made meanwhile, ask for readers, attach theirs, and join with and without a '
    'time limit; every report lies between two events of one total order and is compared with '
    'the sessions certainly running, open, ended or closed then; non-trivial: reports were made '
    'while a start or stop was in progress'
)
ASSUMPTIONS = ['start, stop and contexts are used by one thread at a time',
               'a thread joins only a stream that has been started and is not being started']
QUICK = 2000
THOROUGH = 60000
MIN = {'is_running polls': 30000, 'polls while running': 8000, 'polls while stopped': 8000,
       'polls during a start': 2000, 'polls before the first start': 1000, 'reader polls': 10000,
       'readers of running sessions': 2000, 'readers of ended sessions': 3000,
       'readers asked for during a restart': 400, 'readers attached': 5000, 'joins': 800, 'joins with a limit': 500,
       'joins that ended in time': 150, 'joins that gave up': 150, 'infos': 10000,
       'failed starts': 300, 'sessions ended by themselves': 300}
INF = float('inf')


def case(rng, ctx):
    if ctx.case_id % 20 == 13:
        return odd_infos(rng, ctx)
    from stream2py import StreamBuffer
    from stream2py.exceptions import StreamNotStartedError

    s = ctx.sched(rng)
    seed = rng.getrandbits(60)

    def main(s):
        kind = rng.choice(['int', 'rec', 'tuple', 'str'])
        mk, key = KINDS[kind]
        times = rng.choice([(0,), (0, 0.002), (0, 0.3), (0.9, 1.05, 3.0), (0, 0, 0, 14.0)])
        pause = rng.choice([0.01, 0.3, 1.5])
        ending = rng.choice([0, 0.3, 0.7])
        broken = rng.choice([0, 0, 0.3])

        def script(session):
            rg = random.Random(f'{seed}:{session}')
            out = []
            for i in range(rg.choice([0, 1, 4, 12])):
                if rg.random() < 0.3:
                    out.append(('none', rg.choice(times)))
                out.append(('item', mk(i), rg.choice(times)))
            if rg.random() < ending:
                out.append(('raise', rg.choice([SrcError('end'), StopIteration(), EOFError()])))
            return out

        src = mk_src(rng, s, key, by_session=script, pause=pause,
                     info=lambda src: {'session': src.session, 'v': [src.session]})
        for what in ('open', 'close', 'info'):
            src.slow[what] = rng.choice(times)
        frg = random.Random(f'{seed}:f')
        if broken:
            src.faults['open'] = [SrcError('open') if frg.random() < broken else None
                                  for _ in range(12)]
            src.faults['info'] = [SrcError('info') if frg.random() < broken else None
                                  for _ in range(12)]
            src.faults['close'] = [SrcError('close') if frg.random() < broken else None
                                   for _ in range(12)]
        stream = StreamBuffer(src, maxlen=rng.choice([None, 1, 3, 100]),
                              sleep_time_on_read_none_s=pause)
        n_threads = rng.choice([1, 2, 3])
        ctx.describe(kind=kind, times=times, pause=pause, ending=ending, broken=broken,
                     threads=n_threads, slow=dict(src.slow), mode=s.mode, tick=s.tick,
                     source=type(src).__name__)
        polls = []  # (call, return, value)
        rpolls = []  # (call, return, session, value)
        made = []  # (call, return, session or None)
        infos = []  # (call, return, info)
        joins = []  # (call, return, limit, virtual duration, outcome)
        starts = []  # [call, return, session or None if it failed]
        stops = []  # (call, return)
        starting = []
        over = []
        started = []

        def poll(rg, mine):
            x = rg.random()
            c = s.tick_seq()
            if x < 0.45:
                o = call(lambda: stream.is_running)
                ctx.check(o[0] == 'ret' and type(o[1]) is bool, 'is_running failed', show(o))
                polls.append((c, s.tick_seq(), o[1]))
            elif x < 0.6:
                o = call(lambda: stream.source_reader_info)
                ctx.check(o[0] == 'ret', 'source_reader_info failed', show(o))
                infos.append((c, s.tick_seq(), o[1]))
            elif x < 0.75 or not mine:
                o = call(stream.mk_reader)
                r = s.tick_seq()
                if o[0] == 'exc':
                    ctx.check(isinstance(o[1], StreamNotStartedError), 'mk_reader failed', show(o))
                    made.append((c, r, None))
                else:
                    k = o[1].source_reader_info['session']
                    made.append((c, r, k))
                    mine.append([o[1], k, False])
                    del mine[:-6]
            elif x < 0.82:
                rec = rg.choice(mine)
                o = call(lambda: stream.attach_reader(rec[0]))
                r = s.tick_seq()
                if o[0] == 'exc':
                    ctx.check(isinstance(o[1], StreamNotStartedError), 'attach_reader failed',
                              show(o))
                    made.append((c, r, None))
                else:
                    k = rec[0].source_reader_info['session']
                    made.append((c, r, k))
                    rec[1:] = k, False
                    ctx.count('readers attached')
            else:
                rec = rg.choice(mine)
                v = rec[0].is_stopped
                rpolls.append((c, s.tick_seq(), rec[1], v))
                ctx.check(v or not rec[2], 'a stopped reader runs again', f'session {rec[1]}')
                rec[2] = v
                inf = rec[0].source_reader_info
                ctx.check(same(inf, {'session': rec[1], 'v': [rec[1]]}), 'info of a reader changed',
                          f'{inf!r}, session {rec[1]}')

        def watch(rg):
            mine = []
            n = 0
            while not over:
                for _ in range(rg.choice([1, 1, 3, 8])):
                    poll(rg, mine)
                if eager:  # keep asking while a start is under way
                    for _ in range(60):
                        if not starting or over:
                            break
                        poll(rg, mine)
                n += 1
                time.sleep(rg.choice(naps) * (1 if n < 60 else 1 + 300 * rg.random()))

        def joiner(rg):
            while not over:
                time.sleep(rg.choice([0.05, 0.7, 2]))
                if not started or starting:
                    continue
                limit = rg.choice([None, 0, 0.3, 2, 8])
                if limit is None and rg.random() < 0.5:
                    continue
                c, t = s.tick_seq(), s.now
                o = call(lambda: stream.join() if limit is None else stream.join(limit)
                         if rg.random() < 0.5 else stream.join(timeout=limit))
                joins.append((c, s.tick_seq(), limit, s.now - t, o))

        eager = rng.random() < 0.3
        naps = rng.choice([(0.001, 0.02), (0.05, 0.4), (0.3, 2)])
        ts = [threading.Thread(target=watch, args=(random.Random(f'{seed}:w{i}'),))
              for i in range(n_threads)]
        if rng.random() < 0.8:
            ts.append(threading.Thread(target=joiner, args=(random.Random(f'{seed}:j'),)))
        for t in ts:
            t.start()
        mine = []
        for _ in range(rng.choice([0, 1, 5])):
            poll(rng, mine)
        rests = rng.choice([(0, 0.01), (0.1, 0.7), (1, 6)])

        def stop(how):
            c = s.tick_seq()
            o = call(how)
            stops.append((c, s.tick_seq()))
            ctx.check(o[0] == 'ret' and not o[1], 'stop failed', show(o))

        for _ in range(rng.randint(1, 5)):
            how = rng.choice([stream.start, stream.start, stream.__enter__, stream.enter])
            starting.append(1)
            rec = [s.tick_seq(), INF, None]
            starts.append(rec)
            o = call(how)
            rec[1] = s.tick_seq()
            if o[0] == 'ret':
                rec[2] = src.opens
                ctx.check(o[1] is (None if how == stream.start else stream), 'start result', show(o))
                started.append(1)
            else:
                ctx.check(isinstance(o[1], SrcError), 'start failed', show(o))
                ctx.count('failed starts')
            if o[0] == 'ret':
                del starting[:]  # only a stream whose thread has been started can be joined
            for _ in range(rng.choice([0, 2, 6])):
                poll(rng, mine)
                time.sleep(rng.choice(rests))
            if rng.random() < 0.7:
                for _ in range(rng.choice([1, 1, 2])):
                    stop(rng.choice([stream.stop, stream.stop,
                                     lambda: stream.__exit__(None, None, None)]))
                for _ in range(rng.choice([0, 2, 6])):
                    poll(rng, mine)
                    time.sleep(rng.choice(rests))
        stop(stream.stop)
        time.sleep(45)
        over.append(1)
        for t in ts:
            t.join()
        for _ in range(6):
            poll(rng, mine)
        judge(ctx, src.log, starts, stops, polls, rpolls, made, infos, joins)
        during = sum(any(c < p[1] and p[0] < r for c, r, _ in starts) for p in polls)
        ctx.count('polls during a start', during)
        if during:
            ctx.interesting(s.sig, during)

    ctx.run(s, main, allow=(SrcError, StopIteration, EOFError, RuntimeError))


def judge(ctx, log, starts, stops, polls, rpolls, made, infos, joins):
    # sessions by the source: opened, first sign of its end, begin and end of closing
    opened, ended, closing, closed = {}, {}, {}, {}
    k = 0
    for e in log:
        if e.what == 'open<':
            k += 1
            opened[k] = e.seq
        elif e.what == 'open!':
            pass
        elif e.what == 'read!':
            ended[k] = e.seq
            ctx.count('sessions ended by themselves')
        elif e.what == 'close>':
            closing[k] = e.seq
        elif e.what in ('close<', 'close!'):
            closed[k] = e.seq
    number = {}
    j = 0
    for c, r, n in starts:
        if n is not None:
            j = max(j, sum(1 for q in opened.values() if q < r))
            number[r] = j
    calls = sorted([c for c, _ in stops] + [c for c, _, _ in starts])
    # intervals in which a session certainly runs
    runs = {}
    for c, r, n in starts:
        if n is None:
            continue
        k = number[r]
        end = min([x for x in calls if x > r] + [ended.get(k, INF)])
        runs[k] = (r, end)
    # from when a session has certainly ended
    dead = {}
    for k in opened:
        xs = [closing.get(k, INF)]
        nxt = opened.get(k + 1, INF)
        xs += [r for c, r in stops if opened[k] < c]
        xs += [nxt]
        dead[k] = min(xs)
    # intervals in which certainly no session runs
    first = min([c for c, _, _ in starts] + [INF])
    idle = [(-1, first)]
    after = sorted(c for c, _, _ in starts)

    def next_start(q):
        return min([c for c in after if c > q] + [INF])

    for c, r in stops:
        # a stop ends what runs; nothing runs until the next start
        idle.append((r, next_start(r)))
    for c, r, n in starts:
        if n is None:
            idle.append((r, next_start(r)))
    for k in closing:
        idle.append((closing[k], min(opened.get(k + 1, INF), next_start(closing[k]))
                     if k in runs else closing[k]))
    opens = [(opened[k], closing.get(k, INF)) for k in opened]
    for c, r, v in polls:
        ctx.count('is_running polls')
        on = any(a < c and r < b for a, b in runs.values())
        off = any(a < c and r < b for a, b in idle)
        ctx.count('polls while running', on)
        ctx.count('polls while stopped', off)
        if r < first:
            ctx.count('polls before the first start')
        if v:
            ctx.check(not off, 'running while stopped', f'is_running was True in {c}..{r}; '
                      f'idle {idle}; {log[-40:]}')
            ctx.check(any(a < r and c < b for a, b in opens), 'running while not open',
                      f'is_running was True in {c}..{r}; open in {opens}')
        else:
            ctx.check(not on, 'stopped while running', f'is_running was False in {c}..{r}; runs '
                      f'{runs}; {log[-40:]}')
    info_of = {k: k for k in opened}  # the source counts the opens that succeed
    for c, r, sn, v in rpolls:
        k = info_of[sn]
        ctx.count('reader polls')
        if k in runs and runs[k][0] < c and r < runs[k][1]:
            ctx.count('readers of running sessions')
            ctx.check(not v, 'reader stopped while its session runs', f'{c}..{r} session {k} runs '
                      f'{runs[k]}')
        if dead[k] < c:
            ctx.count('readers of ended sessions')
            ctx.check(v, 'reader not stopped although its session ended',
                      f'{c}..{r} session {k} ended by {dead[k]}')
    ok = sorted((r, number[r]) for c, r, n in starts if n is not None)
    failed = [(c, min([q for q, _ in ok if q > r] + [INF])) for c, r, n in starts if n is None]
    for c, r, sn in made:
        floor = max([k for q, k in ok if q < c] + [0])
        amid = any(a < r and c < b for a, b, _ in starts)
        ctx.count('readers asked for during a restart', bool(amid and floor))
        unsure = any(a < r and c < b for a, b in failed)
        if sn is None:
            ctx.check(not floor or unsure, 'no reader of a started stream',
                      f'mk_reader in {c}..{r}, starts {starts}')
        else:
            k = info_of[sn]
            ctx.check(opened[k] < r, 'reader of a session to come', f'{sn}')
            ctx.check(k >= floor, 'reader of an old session',
                      f'mk_reader in {c}..{r} gave session {k}, {floor} had been started')
            if not any(a < r and c < b for a, b, _ in starts) and not unsure:
                ctx.check(k == floor, 'reader of another session', f'{k}, due {floor}')
    for c, r, v in infos:
        ctx.count('infos')
        floor = max([k for q, k in ok if q < c] + [0])
        amid = any(a < r and c < b for a, b, _ in starts)
        unsure = any(a < r and c < b for a, b in failed)
        if v is None:
            ctx.check(not floor or amid or unsure, 'no info of a started stream',
                      f'{c}..{r}, starts {starts}')
            continue
        sn = v.get('session') if isinstance(v, dict) else None
        ctx.check(sn in info_of and same(v, {'session': sn, 'v': [sn]}), 'foreign info', repr(v))
        k = info_of[sn]
        ctx.check(opened[k] < r and k >= floor, 'info of another session',
                  f'{c}..{r} gave {v!r}, {floor} had been started')
    for c, r, limit, took, o in joins:
        ctx.count('joins' if limit is None else 'joins with a limit')
        amid = any(a < r and c < b for a, b, _ in starts) or any(
            a < r and c < b for a, b in failed)
        if o[0] == 'exc':
            ctx.check(isinstance(o[1], RuntimeError) and amid, 'join failed', show(o))
            continue
        ctx.check(o[1] is None, 'join result', show(o))
        floor = max([k for q, k in ok if q < c] + [0])
        if limit is not None:
            ctx.check(took <= limit + 3, 'join went past its limit', f'{took} s, limit {limit}')
        gave_up = limit is not None and took >= limit - 1e-6
        if gave_up:
            ctx.count('joins that gave up')
            continue
        ctx.count('joins that ended in time', limit is not None)
        if not amid:
            ctx.check(closed.get(floor, INF) < r, 'join returned before the source was closed',
                      f'{c}..{r} limit {limit} took {took}; session {floor} closed at '
                      f'{closed.get(floor)}; {log[-30:]}')
