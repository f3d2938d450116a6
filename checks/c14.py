"""C14: a failing source stops the stream cleanly and loses nothing already read."""
import itertools
import random
import threading
import time

from lib.harness import Violation, same, show
from lib.sources import KINDS, mk_src, script_of

ID = 'C14'
TECHNIQUE = 'runtime monitoring: fault injection at every source call, end state and data compared with the model'
LEVEL = 'fault_enumeration'
RULE = (
    'one fault per session at every place in turn (open, info, the k-th read, the k-th key, an '
    'item not following the last, close, info and close, read and close, key and close; k from 0 to 6), with '
    'exceptions of 7 types, while 0-3 consumers iterate, call next or block; then further '
    'sessions with or without faults of the same stream; every place is enumerated, schedules, '
    'window, pauses and the sequence of sessions are drawn; non-trivial: a fault was raised'
)
ASSUMPTIONS = ['a source fails at the listed places only']
QUICK = 2400
THOROUGH = 80000
MIN = {'faults': 2400, 'starts that raised': 300, 'sessions ended by a fault': 1000,
       'consumers that ended': 1000, 'restarts after a fault': 1500, 'late readers': 1000,
       'fault open': 100, 'fault info': 100, 'fault read': 300, 'fault key': 300,
       'fault order': 300, 'fault close': 100}


class Planned(Exception):
    pass


class PlannedBase(BaseException):
    pass


def exceptions(base):
    out = [Planned('planned'), ValueError('planned'), StopIteration('planned'),
           OSError('planned'), KeyError('planned')]
    if base:
        out += [PlannedBase('planned'), SystemExit('planned')]
    return out


N = 6
PLACES = (
    [('open', 0), ('info', 0), ('close', 0), ('info+close', 0)] * 3 + [('none', 0)]
    + list(itertools.product(['read', 'key', 'order', 'read+close', 'key+close'], range(N + 1)))
)
KIND = ['rec', 'dict', 'lists', 'eqval', 'tuple']


def case(rng, ctx):
    from stream2py import StreamBuffer
    from stream2py.exceptions import StreamNotStartedError

    s = ctx.sched(rng)
    seed = rng.getrandbits(60)
    first = PLACES[int(ctx.case_id) % len(PLACES)]

    def main(s):
        kind = rng.choice(KIND)
        mk, plainkey = KINDS[kind]
        bad = set()  # ids of items whose key fails
        keyexc = []

        def key(d):
            if id(d) in bad:
                raise keyexc[0]
            return plainkey(d)

        maxlen = rng.choice([None, None, 100, 1, 2, 4])
        pause = rng.choice([0, 0.01, 0.3, 1.5])
        times = rng.choice([(0,), (0, 0.002), (0, 0.3), (0, 0, 1.3)])
        planned = []
        plan = [first] + [rng.choice(PLACES) for _ in range(rng.choice([0, 0, 1, 2]))] + [
            ('none', 0)]
        sessions = []  # (place, exc, items put in the buffer)
        src = mk_src(rng, s, key)
        ctx.describe(plan=plan, kind=kind, maxlen=maxlen, pause=pause, times=times,
                     mode=s.mode, p=s.p, tick=s.tick, source=type(src).__name__)
        stream = StreamBuffer(src, maxlen=maxlen, auto_drop=maxlen is None or rng.random() < 0.9,
                              sleep_time_on_read_none_s=pause)
        if not stream.auto_drop:
            stream.auto_drop = True if maxlen is not None and maxlen < N + 2 else False
        olds = []  # readers of earlier sessions with what they must still give
        opens = closes = 0
        for nth, (what, k) in enumerate(plan):
            exc = rng.choice(exceptions(base=what in ('open', 'info', 'info+close', 'read')))
            planned.append(exc)
            xs = [mk(i) for i in range(N)]
            good = xs
            script = script_of(xs, rng, rng.choice([0, 0.3]), 0.5, times)
            at = [i for i, a in enumerate(script) if a[0] == 'item']
            at.append(len(script))
            base = what.split('+')[0]
            bad.clear()
            src.faults.clear()
            ctx.note('session', nth, what, k, repr(exc), 'at', s.now)
            if what != 'none':
                ctx.interesting(what, k, nth, type(exc).__name__)
                ctx.seen('fault points', (what, k, type(exc).__name__, maxlen))
            if base in ('open', 'info'):
                src.faults[base] = [exc]
            if base == 'close' or what.endswith('+close'):
                src.faults['close'] = [rng.choice(exceptions(base=base != 'info'))]
            if base == 'read':
                script[at[k]:] = [('raise', exc, rng.choice(times))]
                good = xs[:k]
            elif base == 'key':
                x = xs[k] if k < N else mk(N)
                if k == N:
                    script.append(('item', x))
                    xs.append(x)
                bad.add(id(x))
                keyexc[:] = [exc]
                good = xs[:k]
            elif base == 'order':
                k = max(k, 1)
                y = mk(rng.choice([k - 1, k - 1, rng.randrange(k)]))
                xs.append(y)
                script.insert(at[k] if k < N else len(script), ('item', y))
                good = xs[:k]
            src.script, src.pos = script, 0
            log0 = len(src.log)
            # -- start
            o = outcome(stream.start if rng.random() < 0.7 else stream.__enter__)
            opens += 1
            if nth and plan[nth - 1][0] != 'none':
                ctx.count('restarts after a fault')
            if base in ('open', 'info'):
                ctx.check(o[0] == 'exc' and o[1] is exc, 'failure of start not raised',
                          f'{what} failed with {exc!r}; start {show(o)}')
                ctx.count('starts that raised')
                ctx.count('faults')
                ctx.count('fault ' + what)
                time.sleep(3 if rng.random() < 0.5 else 0)
                ctx.check(stream.is_running is False, 'running after a failed start', what)
                evs = [e.what for e in src.log[log0:]]
                want = 1 if base == 'info' else 0
                ctx.check(evs.count('close>') == want, 'closes after a failed start',
                          f'{what} failed: {evs}')
                ctx.check('read>' not in evs, 'read after a failed start', str(evs))
                o = outcome(stream.mk_reader)
                if o[0] == 'exc':
                    ctx.check(isinstance(o[1], StreamNotStartedError), 'mk_reader', show(o))
                else:
                    ctx.check(o[1].is_stopped, 'running after a failed start', what)
                if rng.random() < 0.5:
                    o = outcome(stream.stop)
                    ctx.check(o == ('ret', None), 'stop failed', show(o))
                continue
            ctx.check(o[0] == 'ret', 'start failed', f'session {nth} ({what}):', show(o))
            # -- consumers
            cons, ts = [], []
            early = stream.mk_reader()
            for i in range(rng.choice([0, 1, 1, 2, 3])):
                c = [rng.choice(['for', 'next', 'blocking', 'stream']), [], False]
                cons.append(c)
                ts.append(threading.Thread(
                    target=consume, args=(ctx, stream, c, random.Random(f'{seed}:{nth}:{i}'))))
            for t in ts:
                t.start()
            # -- the end of the session
            by_fault = base in ('read', 'key', 'order')
            if by_fault:
                limit = s.now + 30 + (pause + max(times) + 0.1) * 40
                while stream.is_running and s.now < limit:
                    time.sleep(0.02)
                ctx.check(stream.is_running is False, 'running after a fault',
                          f'{what} at {k}: still running {s.now - limit} s after the limit')
                ctx.count('sessions ended by a fault')
                ctx.count('fault ' + base)
                ctx.count('faults')
                time.sleep(rng.choice([0, 0.01]))
            else:
                limit = s.now + 3000
                while not (src.drained and early_done(early, xs)) and s.now < limit:
                    time.sleep(0.05)
                if rng.random() < 0.5:
                    stream.stop()
                else:
                    stream.__exit__(None, None, None)
                if base == 'close':
                    ctx.count('fault close')
                    ctx.count('faults')
            for t in ts:
                t.join()
            time.sleep(2)
            evs = [e.what for e in src.log[log0:]]
            closes = evs.count('close>')
            ctx.check(evs.count('open>') == 1 and closes == 1, 'not closed exactly once',
                      f'session {nth} ({what} at {k}): {evs}')
            i = evs.index('close>')
            ctx.check('read>' not in evs[i:], 'read after close', str(evs))
            lo = 0 if maxlen is None else max(0, len(good) - maxlen)
            due = good[lo:]
            # -- every consumer ended with everything
            for style, got, ended in cons:
                ctx.check(ended, 'consumer did not end', style)
                ctx.count('consumers that ended')
                check_got(ctx, style, got, good, due, maxlen is None or maxlen >= len(good))
            # -- and readers made before or after the failure can read the rest
            for r, name in ((early, 'a reader made before'),
                            (stream.mk_reader(), 'a reader made after')):
                if name.endswith('before') and rng.random() < 0.5:
                    r.last_item  # noqa: B018
                del r.last_item
                left(ctx, r, due, f'{name} {what} at {k}')
                ctx.count('late readers')
                olds.append((r, due))
            for r, d in olds[:-2]:
                del r.last_item
                left(ctx, r, d, 'a reader of an earlier session')
            if rng.random() < 0.3:
                o = outcome(stream.stop)
                ctx.check(o == ('ret', None), 'stop failed', show(o))
        stream.stop()
        ctx.note('sessions', len(sessions), 'opens', opens)

    errs = (Planned, PlannedBase, ValueError, StopIteration, OSError, KeyError, SystemExit)
    ctx.run(s, main, allow=Allow(errs))
    for _, e in s.thread_errors:
        # what ended a thread was the source's failure or the refusal of an item out of order
        if 'planned' not in str(e) and not isinstance(e, ValueError):
            raise Violation('thread died', repr(e))


def Allow(errs):
    return errs


def outcome(fn):
    try:
        return ('ret', fn())
    except (Planned, PlannedBase, Exception, SystemExit) as e:
        e.__traceback__ = None
        e.__context__ = None
        if isinstance(e, Violation):
            raise
        return ('exc', e)


def early_done(r, xs):
    o = outcome(lambda: r.tail(peek=True))
    return o[0] == 'ret' and same(o[1], xs[-1])


def consume(ctx, stream, c, rg):
    style, got = c[0], c[1]
    nap = rg.choice([0, 0, 0.01])
    if style == 'stream':
        for x in stream:
            got.append(x)
            if nap:
                time.sleep(nap)
    else:
        r = stream.mk_reader()
        if style == 'for':
            for x in r:
                got.append(x)
        elif style == 'next':
            while True:
                o = outcome(lambda: next(r))
                if o[0] == 'exc':
                    ctx.check(isinstance(o[1], StopIteration), 'next failed', show(o))
                    break
                if o[1] is None:
                    time.sleep(0.02)
                else:
                    got.append(o[1])
        else:
            while True:
                o = outcome(lambda: r.read(blocking=True))
                ctx.check(o[0] == 'ret', 'blocking read failed', show(o))
                if o[1] is None:
                    break
                got.append(o[1])
                if nap:
                    time.sleep(nap)
    c[2] = True


def index(ctx, x, xs):
    for i, y in enumerate(xs):
        if x is y:
            return i
    ctx.fail('an item that was not put in the buffer', f'{x!r}; due were {xs!r}')


def check_got(ctx, style, got, good, due, keeps):
    seq = [index(ctx, x, good) for x in got]
    ctx.check(all(a < b for a, b in zip(seq, seq[1:])), 'order', f'{style}: {seq}')
    if keeps:
        ctx.check(len(seq) == len(good), 'items lost',
                  f'{style}: received {seq}, {len(good)} were put in the buffer')
    elif due:
        ctx.check(seq and seq[-1] == len(good) - 1, 'items lost',
                  f'{style}: received {seq}, {len(good)} were put in the buffer')


def left(ctx, r, due, name):
    ctx.check(r.is_stopped, 'reader not stopped', name)
    got = []
    for x in r:
        got.append(x)
        ctx.check(len(got) <= len(due), 'more items than due', f'{name}: {got}, due {due}')
    ctx.check(same(got, due), 'items not readable after the end', f'{name}: {got!r}, due {due!r}')
    o = outcome(lambda: next(r))
    ctx.check(o[0] == 'exc' and isinstance(o[1], StopIteration), 'reader does not end', show(o))
