"""C13: a restart begins a fresh session isolated from earlier ones."""
import random
import threading
import time

from lib.harness import call, same, show
from lib.oddinfo import odd_infos
from lib.sources import KIND_NAMES, KINDS, mk_src

ID = 'C13'
TECHNIQUE = 'runtime monitoring: per-session provenance of every item and info seen by every reader'
RULE = (
    'streams restarted 2-6 times (stop and start, start while running, contexts), the source '
    'still busy reading for up to several times the delay of stop; infos also falsy and odd; keys of later sessions repeat, '
    'continue or fall below those of earlier ones; readers of all sessions read on in 0-3 threads; '
    'every item is attributed to the session in which the source returned it; non-trivial: the '
    'source was busy when a session was stopped, or an old reader read after a restart'
)
ASSUMPTIONS = ['the source gives a new info dict per session']
QUICK = 1500
THOROUGH = 60000
MIN = {'restarts': 1500, 'restarts while the source was busy': 300,
       'old readers checked after a restart': 3000, 'items attributed': 8000,
       'sessions read from their first item': 500}
IDENTITY = ['rec', 'dict', 'lists', 'eqval', 'tuple', 'tupletuple']


def case(rng, ctx):
    if ctx.case_id % 20 == 13:
        return odd_infos(rng, ctx)
    from stream2py import StreamBuffer
    from stream2py.exceptions import StreamNotStartedError

    s = ctx.sched(rng)
    seed = rng.getrandbits(60)

    def main(s):
        kind = rng.choice(IDENTITY) if rng.random() < 0.6 else rng.choice(KIND_NAMES)
        mk, key = KINDS[kind]
        step = rng.choice([0, 0, 1000, 500, -100]) if kind in IDENTITY else rng.choice(
            [1000, 500, -100])
        if kind in ('strkey', 'bytes', 'str', 'sparse'):
            step = abs(step) or 700
        times = rng.choice([(0,), (0, 0.002), (0, 0.3), (0.9, 1.05, 3.0), (0, 0, 0, 2.2),
                            (0, 0, 0, 13.0)])
        pause = rng.choice([0.01, 0.3, 1.5, 4.0])
        n = rng.choice([1, 3, 10])
        maxlen = rng.choice([None, None, 100, 1, 2, 4])
        made = {}  # session -> its items

        def script(session):
            rg = random.Random(f'{seed}:{session}')
            xs = made[session] = [mk(i + session * step) for i in range(n)]
            out = []
            for x in xs:
                while rg.random() < 0.25:
                    out.append(('none', rg.choice(times)))
                out.append(('item', x, rg.choice(times)))
            return out

        same_info = rng.random() < 0.3

        def info(src):
            return {'n': 1} if same_info else {'session': src.session, 'x': [src.session]}

        src = mk_src(rng, s, key, by_session=script, info=info, pause=pause)
        stream = StreamBuffer(src, maxlen=maxlen, sleep_time_on_read_none_s=pause)
        ctx.describe(kind=kind, step=step, items=n, maxlen=maxlen, pause=pause, times=times,
                     mode=s.mode, tick=s.tick, source=type(src).__name__)
        readers = []  # [reader, session, received]
        naps = rng.choice([(0, 0.005), (0.01, 0.3), (0.5, 1.2), (0, 3.5)])

        def session_of(x, near):
            for k in [near] + list(made):
                for i, y in enumerate(made[k]):
                    if x is y or (kind not in IDENTITY and same(x, y)):
                        return k, i
            ctx.fail('foreign item', repr(x))

        def take(rec, out, what):
            r, k, got = rec
            if out[0] == 'exc':
                ctx.check(isinstance(out[1], (ValueError, IndexError, StopIteration)),
                          'query failed', what, show(out))
                return
            if out[1] is None:
                return
            v = out[1]
            many = isinstance(v, list) and (
                what == 'range' or what == 'read' and r.read_size > 1)
            for x in v if many else [v]:
                j, i = session_of(x, k)
                ctx.count('items attributed')
                ctx.check(j == k, 'item of another session',
                          f'{what} of a reader of session {k} returned {x!r} of session {j}')
                if what == 'read':
                    ctx.check(not got or got[-1] < i, 'order', f'{got} then {i}')
                    got.append(i)

        def query(rec, rg):
            r, k, got = rec
            x = rg.random()
            if x < 0.6:
                take(rec, call(r.read), 'read')
            elif x < 0.7:
                take(rec, call(r.tail, peek=True), 'tail')
            elif x < 0.8:
                take(rec, call(r.head, peek=True), 'head')
            else:
                j = rg.choice(list(made))
                lo = key(made[j][0])
                hi = key(made[j][-1])
                take(rec, call(r.range, lo, hi, peek=True), 'range')
            inf = r.source_reader_info
            want = infos[k]
            ctx.check(same(inf, want), 'info of another session',
                      f'reader of session {k} has info {inf!r}, due {want!r}')

        infos = {}

        def new_reader(k):
            r = stream.mk_reader(read_size=rng.choice([1, 1, 3]))
            infos[k] = {'n': 1} if same_info else {'session': k, 'x': [k]}
            rec = [r, k, []]
            readers.append(rec)
            return rec

        stop_all = []
        stopped_sessions = {}

        def roam(rg, end):
            """A client that makes readers whenever it likes and uses those it has."""
            mine = []
            while not stop_all and s.now < end:
                if not mine or rg.random() < 0.2:
                    o = call(stream.mk_reader)
                    if o[0] == 'exc':
                        ctx.check(isinstance(o[1], StreamNotStartedError), 'mk_reader failed',
                                  show(o))
                    elif not same_info:
                        k = o[1].source_reader_info['session']
                        infos[k] = {'session': k, 'x': [k]}
                        mine.append([o[1], k, []])
                for rec in mine[-3:]:
                    query(rec, rg)
                    ctx.check(rec[1] not in stopped_sessions or rec[0].is_stopped,
                              'old reader not stopped', f'session {rec[1]}')
                for a in mine[-3:]:
                    for b in mine[-3:]:
                        ctx.check(a[0].is_same_buffer(b[0]) == (a[1] == b[1]),
                                  'buffer identity', f'sessions {a[1]} and {b[1]}')
                time.sleep(rg.choice([0.3, 1.7]))

        def check_old(k):
            for rec in readers:
                r, j, got = rec
                if j == k:
                    continue
                ctx.count('old readers checked after a restart')
                ctx.check(r.is_stopped, 'old reader not stopped', f'session {j}, now {k}')
                query(rec, rng)

        ts = [threading.Thread(target=roam, args=(random.Random(f'{seed}:r{i}'), 500))
              for i in range(rng.choice([0, 0, 1, 2, 3]))]
        for t in ts:
            t.start()
        k = 0
        for _ in range(rng.randint(2, 6)):
            busy = src.busy is not None
            how = rng.choice(['start', 'stop start', 'stop start', 'context'])
            if k and how != 'start':
                stream.stop()
                stopped_sessions[k] = s.tick_seq()
            o = call(stream.start if how != 'context' else stream.__enter__)
            ctx.check(o[0] == 'ret', 'start failed', show(o))
            if k:
                stopped_sessions.setdefault(k, s.tick_seq())
                ctx.count('restarts')
                if busy:
                    ctx.count('restarts while the source was busy')
                    ctx.interesting('busy', s.sig)
            k += 1
            ctx.check(src.opens == k, 'opens', f'{src.opens} opens after {k} starts')
            a, b = new_reader(k), new_reader(k)
            ctx.check(not a[0].is_stopped and stream.is_running, 'new session not running')
            ctx.check(same(stream.source_reader_info, infos[k]), 'info of another session',
                      repr(stream.source_reader_info))
            ctx.check(a[0].is_same_buffer(b[0]), 'buffer identity', 'same session')
            for rec in readers[:-2]:
                for x, y in ((rec[0], a[0]), (a[0], rec[0])):
                    ctx.check(x.is_same_buffer(y) == (rec[1] == k), 'buffer identity',
                              f'sessions {rec[1]} and {k}')
            check_old(k)
            mode = rng.choice(['drain', 'some', 'leave'])
            if mode == 'drain':
                # a reader of this session gets everything from the first item
                end = s.now + 60 + 30 * (max(times) + pause) * (n + 3)
                while len(a[2]) < n and s.now < end:
                    before = len(a[2])
                    take(a, call(a[0].read, ignore_no_item_found=True), 'read')
                    if len(a[2]) == before:
                        if a[2] and a[2][-1] == n - 1:
                            break
                        time.sleep(0.05)
                if maxlen is None or maxlen >= n:
                    ctx.check(a[2] == list(range(n)), 'session not read from its first item',
                              f'session {k}: {a[2]} of {n}')
                    ctx.count('sessions read from their first item')
                else:
                    ctx.check(a[2] and a[2][-1] == n - 1, 'last item missing', str(a[2]))
            elif mode == 'some':
                for _ in range(rng.randint(1, 6)):
                    query(rng.choice(readers), rng)
                    time.sleep(rng.choice(naps))
            time.sleep(rng.choice(naps))
        stream.stop()
        stopped_sessions.setdefault(k, s.tick_seq())
        time.sleep(30)
        stop_all.append(1)
        for t in ts:
            t.join()
        check_old(k + 1)
        # in the end every session's reader has exactly what was read in that session
        per = returned(src)
        for r, j, got in readers:
            rest = stream_rest(r)
            for x in rest:
                sj, i = session_of(x, j)
                ctx.check(sj == j, 'item of another session', f'{x!r} in session {j}')
                ctx.check(not got or got[-1] < i, 'order', f'{got} then {i}')
                got.append(i)
            if maxlen is None or maxlen >= n:
                ctx.check(got in (list(range(per[j])), list(range(max(per[j] - 1, 0)))),
                          'data of an old session lost', f'session {j}: received {got}; the source '
                          f'returned {per[j]} items')
                ctx.count('sessions read to their end')
        if len(infos) > 1:
            ctx.interesting(s.sig, k)

    ctx.run(s, main, allow=())


def returned(src):
    """Number of items the source returned in each session."""
    out, k = {}, 0
    for e in src.log:
        if e.what == 'open<':
            k += 1
            out[k] = 0
        elif e.what == 'read<' and e.val is not None:
            out[k] += 1
    return out


def stream_rest(r):
    rest = []
    for x in r:
        if r.read_size > 1:
            rest += x
        else:
            rest.append(x)
    return rest
