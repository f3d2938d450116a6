"""C32: an interrupted call leaves the stream working."""
import random
import threading
import time

from lib.harness import SrcError, same, show
from lib.sources import KINDS, mk_src, script_of

ID = 'C32'
TECHNIQUE = 'runtime monitoring: exceptions injected into waiting calls, state compared before and after'
RULE = (
    'exceptions (interrupts, timeouts, errors) are raised in threads while they wait inside calls: '
    'for the readers-writer lock, in queries, iteration and blocking reads of streams whose keys '
    'are slow to compare, in drops, starts, stops, joins and in opening and closing readers of '
    'shared sources; the call must end with that exception, the cursor and the contents must be '
    'as before, everybody else must go on, and afterwards lock, stream and source must work as '
    'new; non-trivial: a call was interrupted'
)
ASSUMPTIONS = ['a call is interrupted once, while it waits, and not inside the stream\'s own thread',
               'a call that waits to release what it holds is not interrupted']
QUICK = 1700
THOROUGH = 60000
MIN = {'interrupted': 4000, 'interrupted for reading': 300, 'interrupted for writing': 300,
       'interrupted sections': 300, 'interrupted read': 100, 'interrupted range': 60,
       'interrupted tail': 30, 'interrupted iterate': 60, 'interrupted blocking read': 60,
       'interrupted drop': 60, 'interrupted start': 100, 'interrupted stop': 40,
       'interrupted join': 25, 'interrupted open_reader': 60, 'interrupted close': 40,
       'sections': 5000, 'items received': 10000, 'sessions': 600}


class Alarm(Exception):
    pass


class Bare(BaseException):
    pass


EXCS = [KeyboardInterrupt, KeyboardInterrupt, Alarm, Bare, SystemExit, TimeoutError, SrcError]


class Victim:
    """A thread that may be interrupted while it is in a call."""

    def __init__(self, name):
        self.name = name
        self.inside = None  # name of the call it is in
        self.thread = None
        self.sent = None


class Storm:
    """Interrupts victims that wait in calls."""

    def __init__(self, ctx, s, rng, until):
        self.ctx, self.s, self.until = ctx, s, until
        self.seed = rng.getrandbits(60)
        self.naps = rng.choice([(0.01, 0.2), (0.3, 1.1), (0.05, 0.5, 3)])
        self.victims = []
        self.over = False
        self.anytime = False  # also waits that would end at once
        self.turn = threading.Lock()
        self.hits = 0
        self.thread = threading.Thread(target=self.run)

    def run(self):
        rg = random.Random(self.seed)
        while not self.over and self.s.now < self.until:
            if self.anytime:
                for _ in range(rg.choice((1, 3, 10, 30))):
                    with self.turn:
                        pass
                if self.s.quiet():
                    time.sleep(0.1)
            else:
                time.sleep(rg.choice(self.naps) * (0.5 + rg.random()))
            if not self.anytime and not self.s.quiet():
                continue  # only waits that last
            pool = [v for v in self.victims if v.inside and v.sent is None]
            if not pool:
                continue
            if self.anytime:
                pool = [v for v in pool if self.s.waits(v.thread) and v.inside != 'sections']
                if not pool:
                    continue
            v = rg.choice(pool)
            if not self.s.quiet():
                self.ctx.count('at any time')
            e = rg.choice(EXCS)('interrupt')
            if self.s.interrupt(v.thread, e):
                v.sent = e
                self.hits += 1

    def spawn(self, name, fn, *args):
        v = Victim(name)
        v.thread = threading.Thread(target=fn, args=(v,) + args)
        self.victims.append(v)
        return v

    def do(self, v, what, fn):
        """Outcome of a call that may be interrupted: ('int', exception) if it was."""
        v.sent = None
        v.inside = what
        try:
            try:
                out = ('ret', fn())
            finally:
                v.inside = None
        except BaseException as e:
            if e is v.sent:
                self.ctx.count('interrupted')
                self.ctx.count('interrupted ' + what)
                v.sent = None
                e.__traceback__ = e.__context__ = None
                return ('int', e)
            self.ctx.check(isinstance(e, Exception) and v.sent is None, 'interrupt replaced',
                           f'{what} was sent {v.sent!r} and raised {e!r}')
            e.__traceback__ = None
            return ('exc', e)
        self.ctx.check(v.sent is None, 'interrupt lost',
                       f'{what} was sent {v.sent!r} and {show(out)}')
        return out


def case(rng, ctx):
    x = rng.random()
    if x < 0.3:
        locks(rng, ctx)
    elif x < 0.62:
        queries(rng, ctx)
    elif x < 0.82:
        lifecycle(rng, ctx)
    else:
        shared(rng, ctx)


def sched(rng, ctx):
    # a wait lasts when nobody can run, so virtual time must not pass by running
    return ctx.sched(rng, tick=rng.choice([0, 1e-6]))


# -- the lock -------------------------------------------------------------------------------
def locks(rng, ctx):
    from checks.c15 import Held, make

    s = sched(rng, ctx)
    seed = rng.getrandbits(60)

    def main(s):
        lock, deque = make(rng)
        held = Held(ctx, s)
        n = rng.randint(2, 6)
        rounds = rng.choice([3, 8])
        inside = rng.choice([(0.5, 2), (0, 0.3), (3,)])
        mix = rng.choice(['r', 'w', 'rw', 'rrw', 'rww'])
        ctx.describe(workload='lock', threads=n, mix=mix, deque=deque, mode=s.mode)
        storm = Storm(ctx, s, rng, 500)
        storm.anytime = rng.random() < 0.5
        if storm.anytime:
            rounds = rng.choice([8, 20])
            inside = rng.choice([(0,), (0, 0, 0, 0.3)])

        def guarded(v, kind, rg):
            what = 'for writing' if kind == 'w' else 'for reading'
            state = dict(entered=False)

            def body(d):
                v.inside = None
                held.enter(kind, v.name)
                state['entered'] = True
                ctx.count('sections')
                try:
                    v.inside = 'sections'
                    time.sleep(rg.choice(inside))
                finally:
                    v.inside = None
                    held.leave(kind, v.name)

            def section():
                if deque:
                    with (lock.writer_lock() if kind == 'w' else lock.reader_lock()) as d:
                        body(d)
                else:
                    (lock.writer_acquire if kind == 'w' else lock.reader_acquire)()
                    try:
                        body(None)
                    finally:
                        (lock.writer_release if kind == 'w' else lock.reader_release)()

            v.sent, v.inside = None, what
            try:
                try:
                    section()
                finally:
                    v.inside = None
            except BaseException as e:
                ctx.check(e is v.sent, 'interrupt replaced', f'{e!r}, sent {v.sent!r}')
                ctx.count('interrupted')
                ctx.count('interrupted ' + ('sections' if state['entered'] else what))
                return
            ctx.check(v.sent is None, 'interrupt lost', what)

        def work(v, i):
            rg = random.Random(f'{seed}:{i}')
            for _ in range(rounds):
                guarded(v, rg.choice(mix), rg)
                if rg.random() < (0.1 if storm.anytime else 0.6):
                    time.sleep(rg.choice([0, 0.1, 1]))

        vs = [storm.spawn(f't{i}', work, i) for i in range(n)]
        for v in vs:
            v.thread.start()
        storm.thread.start()
        for v in vs:
            v.thread.join()
        storm.over = True
        storm.thread.join()
        fresh_lock(ctx, s, lock, deque)
        if storm.hits:
            ctx.interesting(s.sig, n, mix)

    ctx.run(s, main, allow=())


def fresh_lock(ctx, s, lock, deque):
    """Nobody holds it: it works as a new one."""
    seen = []

    def enter(kind, name, stay):
        if deque:
            with (lock.writer_lock() if kind == 'w' else lock.reader_lock()):
                seen.append((name, 'in', s.now))
                time.sleep(stay)
            seen.append((name, 'out', s.now))
            return
        (lock.writer_acquire if kind == 'w' else lock.reader_acquire)()
        seen.append((name, 'in', s.now))
        time.sleep(stay)
        (lock.writer_release if kind == 'w' else lock.reader_release)()
        seen.append((name, 'out', s.now))

    t0 = s.now
    ts = []
    for delay, kind, name, stay in [(0, 'r', 'r1', 10), (1, 'r', 'r2', 4), (2, 'w', 'w', 5),
                                    (7, 'r', 'r3', 5), (30, 'w', 'w2', 1)]:
        while s.now < t0 + delay:
            time.sleep(0.5)
        t = threading.Thread(target=enter, args=(kind, name, stay))
        t.start()
        ts.append(t)
    for t in ts:
        t.join()
    at = {(n, w): t - t0 for n, w, t in seen}
    ctx.check(len(at) == 10, 'threads died', str(seen))
    ctx.check(at['r1', 'in'] < 1 and at['r2', 'in'] < 2, 'reader not admitted to a free lock',
              str(at))
    ctx.check(9 < at['w', 'in'] < 13, 'writer not admitted when the readers left', str(at))
    ctx.check(at['w', 'in'] < at['r3', 'in'] and at['r3', 'in'] < 20, 'reader behind a writer',
              str(at))
    ctx.check(at['w2', 'in'] < 32, 'writer not admitted to a free lock', str(at))


# -- queries --------------------------------------------------------------------------------
class Slow:
    """A key that takes time to compare now and then."""

    __slots__ = ('v', 'rg')
    on = True

    def __init__(self, v, rg):
        self.v, self.rg = v, rg

    def _wait(self):
        if Slow.on and self.rg.random() < 0.15:
            time.sleep(self.rg.choice((0.05, 0.4, 1.5)))

    def __lt__(self, o):
        if not isinstance(o, Slow):
            return NotImplemented
        v = o.v
        self._wait()
        return self.v < v

    def __gt__(self, o):
        if not isinstance(o, Slow):
            return NotImplemented
        v = o.v
        self._wait()
        return self.v > v

    def __le__(self, o):
        return not self > o

    def __ge__(self, o):
        return not self < o

    def __eq__(self, o):
        return isinstance(o, Slow) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return f'Slow({self.v})'


def queries(rng, ctx):
    from stream2py import StreamBuffer

    s = sched(rng, ctx)
    seed = rng.getrandbits(60)

    def main(s):
        Slow.on = True
        manual = rng.random() < 0.3
        maxlen = rng.choice([2, 4, 50]) if manual else rng.choice([None, None, 3, 10])
        n = rng.choice([5, 15, 40])
        krg = random.Random(f'{seed}:k')
        items = [(i, 'x') for i in range(n)]
        slow_key = rng.random() < 0.4

        def key(d):
            if slow_key and Slow.on and krg.random() < 0.3:
                time.sleep(krg.choice((0.05, 0.4, 1.5)))
            return Slow(d[0], krg)

        src = mk_src(rng, s, key,
                     script_of(items, rng, 0.2, 0.4, delays=(0.01, 0.3)))
        stream = StreamBuffer(src, maxlen=maxlen, auto_drop=not manual,
                              sleep_time_on_read_none_s=rng.choice([0.01, 0.4]))
        stream.start()
        n_threads = rng.choice([1, 2, 3, 4])
        ctx.describe(workload='queries', items=n, maxlen=maxlen, manual=manual, threads=n_threads,
                     mode=s.mode, source=type(src).__name__)
        storm = Storm(ctx, s, rng, 400)
        dropped = [0]
        done = []

        def consume(v, i):
            rg = random.Random(f'{seed}:{i}')
            size = rg.choice([1, 1, 2, 3])
            r = stream.mk_reader(read_size=size, ignore_no_item_found=True)
            got = []
            last = [None]
            way = rg.choice(['mixed', 'mixed', 'iterate', 'blocking', 'next'])

            def took(o, many):
                """Forward results; the cursor is always the last item returned."""
                if o[0] == 'ret' and o[1] is not None:
                    part = o[1] if many else [o[1]]
                    ctx.check(all(x in items for x in part) and part, 'result', show(o))
                    got.extend(part)
                    ctx.count('items received', len(part))
                    last[0] = part[-1]
                else:
                    ctx.check(o[0] != 'exc', 'query failed', show(o))

            def cursor(when):
                lk = r.last_key
                ctx.check(r.last_item is last[0] and (lk is None if last[0] is None
                                                      else lk is not None and lk.v == last[0][0]),
                          'cursor', f'{r.last_item!r} {lk!r} {when}, last received {last[0]!r}')

            while s.now < 3000:
                if got and got[-1] is items[-1]:
                    break
                if r.is_stopped and r.read(peek=True) is None:
                    break
                x = rg.random()
                if way == 'iterate' or way == 'mixed' and x < 0.1:
                    left = rg.choice([1, 3, 1000])
                    it = iter(r)
                    while left and not (got and got[-1] is items[-1]):
                        o = storm.do(v, 'iterate', lambda: next(it, None))
                        took(o, size > 1)
                        left -= 1
                        cursor(f'after iterating: {show(o)}')
                        if o[0] == 'int':
                            break
                elif way == 'blocking' or way == 'mixed' and x < 0.2:
                    o = storm.do(v, 'blocking read', lambda: r.read(blocking=True))
                    took(o, size > 1)
                elif way == 'next' or x < 0.7:
                    o = storm.do(v, 'read', (lambda: next(r, None)) if rg.random() < 0.5
                                 else r.read)
                    took(o, size > 1)
                    if o == ('ret', None):
                        time.sleep(rg.choice([0.01, 0.2]))
                elif x < 0.8:
                    a, b = sorted(rg.sample(range(n), 2))
                    o = storm.do(v, 'range', lambda: r.range(
                        Slow(a, rg), Slow(b, rg), peek=True, start_le=rg.random() < 0.3,
                        stop_ge=rg.random() < 0.3, only_new_items=rg.random() < 0.3,
                        ignore_no_item_found=True))
                    ctx.check(o[0] != 'exc', 'query failed', show(o))
                elif x < 0.9:
                    o = storm.do(v, 'tail', lambda: r.tail(
                        peek=True, only_new_items=rg.random() < 0.7, ignore_no_item_found=True))
                    ctx.check(o[0] != 'exc', 'query failed', show(o))
                else:
                    o = storm.do(v, 'mk_reader', stream.mk_reader)
                    ctx.check(o[0] != 'exc' and (o[0] == 'int' or o[1].is_same_buffer(r)),
                              'mk_reader', show(o))
                cursor(f'after {show(o)}')
                if rg.random() < 0.3:
                    time.sleep(rg.choice([0, 0.05, 0.6]))
            done.append((i, got))

        def drop(v):
            rg = random.Random(f'{seed}:d')
            r = stream.mk_reader(ignore_no_item_found=True)
            while dropped[0] < n and s.now < 3000:
                held = r.range(Slow(0, rg), Slow(n, rg), peek=True)
                if not held or maxlen > n and rg.random() < 0.3:
                    time.sleep(0.3)
                    continue
                ctx.check(held[0] is items[dropped[0]], 'contents',
                          f'{held} after {dropped[0]} were dropped')
                k = rg.randint(1, len(held))
                o = storm.do(v, 'drop', lambda: stream.drop(k))
                if o[0] == 'ret':
                    dropped[0] += k
                ctx.check(o[0] != 'exc', 'drop failed', show(o))
                time.sleep(rg.choice([0.05, 0.8]))

        vs = [storm.spawn(f'c{i}', consume, i) for i in range(n_threads)]
        if manual:
            vs.append(storm.spawn('d', drop))
        for v in vs:
            v.thread.start()
        storm.thread.start()
        if not manual:
            for _ in range(6000):
                if src.drained:
                    break
                time.sleep(0.5)
            ctx.check(src.drained, 'source starved', f'{src.pos} of {len(src.script)} read')
            time.sleep(30)
        else:
            vs[-1].thread.join()
            ctx.check(dropped[0] == n, 'source starved', f'{dropped[0]} of {n} dropped')
        storm.over = True
        storm.thread.join()
        ctx.check(stream.is_running, 'stream ended', '')
        r = stream.mk_reader(ignore_no_item_found=True)
        held = r.range(Slow(0, krg), Slow(n, krg), peek=True)
        want = [] if manual else items if maxlen is None else items[-maxlen:]
        ctx.check(same(held, want), 'contents', f'{held!r}, due {want!r}')
        stream.stop()
        for v in vs:
            v.thread.join()
        for i, got in done:
            idx = [x[0] for x in got]
            ctx.check(all(a < b for a, b in zip(idx, idx[1:])), 'order', f'reader {i}: {got}')
            if not manual and maxlen is None:
                ctx.check(same(got, items), 'items lost', f'reader {i} received {got}')
        time.sleep(5)
        ctx.check(not src.is_open, 'not closed', '')
        if storm.hits:
            ctx.interesting(s.sig, n, maxlen)

    ctx.run(s, main, allow=())


# -- starting and stopping ------------------------------------------------------------------
def lifecycle(rng, ctx):
    from stream2py import StreamBuffer
    from stream2py.exceptions import StreamNotStartedError

    s = sched(rng, ctx)
    seed = rng.getrandbits(60)

    def main(s):
        mk, key = KINDS['tuple']
        times = rng.choice([(0, 0.4), (0.9, 3.0), (0, 0, 5.0)])

        def script(session):
            rg = random.Random(f'{seed}:{session}')
            out = []
            for i in range(rg.choice([3, 8])):
                out.append(('item', (i, session), rg.choice(times)))
            return out

        src = mk_src(rng, s, key, by_session=script, pause=0.2,
                     info=lambda src: {'session': src.session})
        for what in ('open', 'close', 'info'):
            src.slow[what] = rng.choice(times)
        stream = StreamBuffer(src, maxlen=None)
        n_threads = rng.choice([1, 1, 2, 3])
        ctx.describe(workload='lifecycle', times=times, slow=dict(src.slow), threads=n_threads,
                     mode=s.mode, source=type(src).__name__)
        storm = Storm(ctx, s, rng, 300)

        def drive(v, i):
            rg = random.Random(f'{seed}:{i}')
            for _ in range(rg.choice([4, 8])):
                x = rg.random()
                if x < 0.35:
                    o = storm.do(v, 'start', rg.choice([stream.start, stream.__enter__]))
                    ctx.check(o[0] != 'exc', 'start failed', show(o))
                elif x < 0.6:
                    o = storm.do(v, 'stop', rg.choice([
                        stream.stop, lambda: stream.__exit__(None, None, None)]))
                    ctx.check(o[0] != 'exc', 'stop failed', show(o))
                elif x < 0.75:
                    o = storm.do(v, 'join', lambda: stream.join(rg.choice([0.5, 3])))
                    ctx.check(o[0] != 'exc' or isinstance(o[1], (RuntimeError, AttributeError)),
                              'join failed', show(o))
                else:
                    o = storm.do(v, 'mk_reader', stream.mk_reader)
                    ctx.check(o[0] != 'exc' or isinstance(o[1], StreamNotStartedError),
                              'mk_reader failed', show(o))
                    storm.do(v, 'is_running', lambda: stream.is_running)
                if rg.random() < 0.5:
                    time.sleep(rg.choice([0, 0.3, 2]))

        vs = [storm.spawn(f't{i}', drive, i) for i in range(n_threads)]
        for v in vs:
            v.thread.start()
        storm.thread.start()
        for v in vs:
            v.thread.join()
        storm.over = True
        storm.thread.join()
        stream.stop()
        ctx.check(stream.is_running is False, 'running after stop', '')
        time.sleep(60)
        protocol(ctx, src)
        # and it works as new
        for k in range(2):
            before = src.opens
            stream.start()
            ctx.check(src.opens == before + 1 and src.is_open and stream.is_running, 'start', '')
            r = stream.mk_reader()
            ctx.check(r.source_reader_info == {'session': src.session}, 'info', '')
            due = [(i, src.session) for i in range(sum(a[0] == 'item' for a in src.script))]
            got = []
            while len(got) < len(due):
                x = r.read(blocking=True)
                ctx.check(x is not None, 'no data', f'{got} of {due}')
                got.append(x)
            ctx.check(got == due, 'items', f'{got}, due {due}')
            stream.stop()
            time.sleep(10)
            ctx.check(not src.is_open, 'not closed', '')
            ctx.count('sessions')
        if storm.hits:
            ctx.interesting(s.sig)

    ctx.run(s, main, allow=())


def protocol(ctx, src):
    """Every open that succeeded is followed by its reads and one close."""
    over = [p for p in src.overlaps if 'info' not in p]
    log = [e for e in src.log if not e.what.startswith('info')]
    tail = log[-40:]
    ctx.check(not over, 'calls overlap', f'{over[:5]}; {tail}')
    state = 'closed'
    for e in log:
        w = e.what
        if w == 'open>':
            # an open that was interrupted did not succeed
            ctx.check(state in ('closed', 'opening', 'closing'), 'opened while open',
                      f'{e} in state {state}; {tail}')
            state = 'opening'
        elif w == 'open<':
            state = 'open'
        elif w == 'read>':
            ctx.check(state == 'open', 'read while not open', f'{e} in state {state}; {tail}')
        elif w == 'close>':
            ctx.check(state == 'open', 'closed while not open', f'{e} in state {state}; {tail}')
            state = 'closing'
        elif w == 'close<':
            state = 'closed'
    ctx.check(state in ('closed', 'opening', 'closing'), 'not closed in the end',
              f'state {state}; {tail}')


# -- shared sources -------------------------------------------------------------------------
def shared(rng, ctx):
    from checks.c18 import make_class

    s = sched(rng, ctx)
    seed = rng.getrandbits(60)

    def main(s):
        mk, key = KINDS['tuple']
        times = rng.choice([(0, 0.4), (0.9, 3.0), (0, 5.0)])

        def script(session):
            rg = random.Random(f'{seed}:{session}')
            return [('item', (i, session), rg.choice((0, 0.1))) for i in range(5)]

        src = make_class(rng.random() < 0.5)(s, key, by_session=script, pause=0.2)
        for what in ('open', 'close'):
            src.slow[what] = rng.choice(times)
        n_threads = rng.choice([2, 3, 4])
        ctx.describe(workload='shared', times=times, slow=dict(src.slow), threads=n_threads,
                     mode=s.mode)
        storm = Storm(ctx, s, rng, 300)

        def drive(v, i):
            rg = random.Random(f'{seed}:{i}')
            mine = []

            def close(r):
                while True:  # a close that was interrupted is called again
                    o = storm.do(v, 'close', rg.choice([
                        r.close, lambda: r.__exit__(None, None, None)]))
                    ctx.check(o[0] == 'int' or o == ('ret', None), 'close failed', show(o))
                    if o[0] == 'ret':
                        return

            def use(r):
                o = storm.do(v, 'read', lambda: r.read(blocking=True))
                ctx.check(o[0] != 'exc', 'read failed', show(o))
                ctx.check(not r.is_stopped, 'an open reader was stopped', '')
                if o[0] == 'ret':
                    ctx.check(o[1] is not None and o[1][1] == r.source_reader_info['session'],
                              'item', show(o))

            for _ in range(rg.choice([3, 6])):
                o = storm.do(v, 'open_reader', src.open_reader)
                ctx.check(o[0] != 'exc', 'open_reader failed', show(o))
                if o[0] == 'ret':
                    mine.append([o[1], 0])
                for rec in mine:
                    if rec[1] < 5 and rg.random() < 0.5:
                        rec[1] += 1
                        use(rec[0])
                if mine and rg.random() < 0.6:
                    close(mine.pop(rg.randrange(len(mine)))[0])
                if rg.random() < 0.5:
                    time.sleep(rg.choice([0, 0.3, 2]))
            for r, _ in mine:
                close(r)
                if rg.random() < 0.3:
                    r.close()

        vs = [storm.spawn(f't{i}', drive, i) for i in range(n_threads)]
        for v in vs:
            v.thread.start()
        storm.thread.start()
        for v in vs:
            v.thread.join()
        storm.over = True
        storm.thread.join()
        time.sleep(60)
        ctx.check(not src.is_open, 'source open without readers', f'{src.log[-8:]}')
        protocol(ctx, src)
        for _ in range(2):
            before = src.opens
            with src.open_reader() as r:
                ctx.check(src.opens == before + 1 and src.is_open, 'not opened for a new reader',
                          f'{before}, {src.opens}')
                got = [r.read(blocking=True) for _ in range(5)]
                ctx.check(got == [(i, src.session) for i in range(5)], 'items', str(got))
            time.sleep(10)
            ctx.check(not src.is_open, 'source open without readers', f'{src.log[-8:]}')
            ctx.count('sessions')
        if storm.hits:
            ctx.interesting(s.sig)

    ctx.run(s, main, allow=())
