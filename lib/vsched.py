"""Monitored, schedule-controlled execution of threaded Python code under virtual time.

install() replaces the thread and time primitives of the process; it must run before the
code under test is imported.  A Sched then runs a function (the "main" managed thread) and
every threading.Thread started from it, one at a time, injecting preemptions chosen by a
seeded generator at every scheduling point: each source line of the traced package, each
lock operation, sleep, thread start and explicit point().

Everything is a function of the seed: same seed, same execution.
"""
import _thread
import queue
import random
import sys
import threading
import time
import traceback

_alloc = _thread.allocate_lock
_get_ident = _thread.get_ident
_real_start = _thread.start_new_thread
_real_sleep = time.sleep
_real_time = time.time
_real_monotonic = time.monotonic
_real_perf = time.perf_counter
_real_join = threading.Thread.join
_real_is_alive = threading.Thread.is_alive

EPOCH = 1_700_000_000.0
OVERSLEEP = 2e-3  # a sleep never returns at once: models timer granularity
ACTIVE = None
INSTALLED = False

RUN, BLOCKED, SLEEPING, DONE = 'runnable', 'blocked', 'sleeping', 'done'


class Abort(BaseException):
    """Unwinds managed threads at the end of an aborted execution."""


class VT:
    """One managed thread."""

    __slots__ = (
        'idx', 'name', 'baton', 'exited', 'status', 'deadline', 'waiting_on', 'timed_out',
        'ident', 'prio', 'thread', 'run_len', 'stack', 'pending',
    )

    def __init__(self, idx, name):
        self.idx, self.name = idx, name
        self.baton = _alloc()
        self.baton.acquire()
        self.exited = _alloc()
        self.exited.acquire()
        self.status = RUN
        self.deadline = None
        self.waiting_on = None
        self.timed_out = False
        self.ident = None
        self.prio = 0
        self.thread = None
        self.run_len = 0
        self.stack = None
        self.pending = None


class Sched:
    """One controlled execution.

    mode: 'seq'    switch only when the running thread waits (plus a fairness bound)
          'random' at each point switch with probability p to a random runnable thread
          'pct'    run the runnable thread of highest random priority; `depth` priority
                   change points at random steps below `horizon`; later the priorities are
                   drawn anew every 2 * `fairness` steps
    tick: virtual seconds that pass per scheduling point
    """

    def __init__(self, seed, mode='random', p=0.1, tick=1e-4, depth=3, horizon=3000,
                 fairness=400, trace=True, max_steps=4_000_000, hits=None, max_time=1e7,
                 oversleep=OVERSLEEP):
        self.rng = random.Random(f'sched:{seed}')
        self.seed, self.mode, self.p, self.tick = seed, mode, p, tick
        self.depth, self.horizon, self.fairness = depth, horizon, fairness
        self.trace = trace
        self.max_steps = max_steps
        self.max_time = max_time
        self.oversleep = oversleep
        self.threads = []
        self.by_thread = {}
        self.current = None
        self.now = 0.0
        self.steps = 0
        self.switches = 0
        self.sig = 0
        self.aborting = False
        self.failure = None  # (kind, text)
        self.error = None  # exception that escaped the main function
        self.thread_errors = []
        self.next_due = float('inf')
        self.seq = 0
        self.hits = hits
        self.lowprio = 0
        self.no_thread = set()  # threads (VT) whose next start of a thread fails
        self.reshuffle = horizon if mode == 'pct' else float('inf')
        self.log = []
        if mode == 'random':
            self.next_switch = self._geo()
        elif mode == 'pct':
            self.changes = sorted(self.rng.randrange(1, horizon) for _ in range(depth))
            self.next_switch = self.changes.pop(0) if self.changes else float('inf')
        else:
            self.next_switch = float('inf')

    # -- bookkeeping -----------------------------------------------------------------
    def _geo(self):
        p = self.p
        if p <= 0:
            return float('inf')
        n = 1
        r = self.rng.random
        if p >= 0.02:
            while r() > p:
                n += 1
        else:
            import math

            n = 1 + int(math.log(1 - r()) / math.log(1 - p))
        return self.steps + n

    def _register(self, name):
        vt = VT(len(self.threads), name)
        vt.prio = self.rng.random() if self.mode == 'pct' else 0
        self.threads.append(vt)
        return vt

    def managed(self):
        c = self.current
        return c is not None and c.ident == _get_ident()

    def tick_seq(self):
        self.seq += 1
        return self.seq

    # -- time ------------------------------------------------------------------------
    def _wake_due(self):
        nxt = float('inf')
        now = self.now
        for t in self.threads:
            d = t.deadline
            if d is not None and t.status in (BLOCKED, SLEEPING):
                if d <= now:
                    t.status = RUN
                    t.timed_out = True
                    t.deadline = None
                elif d < nxt:
                    nxt = d
        self.next_due = nxt

    def _pick(self, exclude=None):
        """Choose the next thread to run (may be the current one); None on deadlock."""
        if self.now >= self.next_due:
            self._wake_due()
        while True:
            ready = [t for t in self.threads if t.status == RUN]
            if ready:
                break
            due = [t.deadline for t in self.threads
                   if t.deadline is not None and t.status in (BLOCKED, SLEEPING)]
            if not due:
                return None
            self.now = max(self.now, min(due))
            self._wake_due()
        if len(ready) == 1:
            return ready[0]
        if exclude is not None:
            ready = [t for t in ready if t is not exclude] or ready
        if self.mode == 'pct':
            return max(ready, key=lambda t: t.prio)
        return ready[self.rng.randrange(len(ready))]

    def _switch(self, me, nxt):
        if nxt is me:
            return
        self.switches += 1
        self.sig = hash((self.sig, me.idx, nxt.idx, self.steps))
        me.run_len = 0
        nxt.run_len = 0
        self.current = nxt
        nxt.baton.release()
        me.baton.acquire()
        if self.aborting:
            raise Abort

    def fail(self, kind, text=''):
        """Record a failure of the execution as a whole and unwind everything."""
        if self.failure is None:
            self.failure = (kind, text + '\n' + self.dump())
        self.aborting = True
        main = self.threads[0]
        if self.current is main and main.ident == _get_ident():
            raise Abort
        me = self.current
        self.current = main
        main.baton.release()
        me.baton.acquire()
        raise Abort

    def dump(self):
        frames = sys._current_frames()
        out = []
        for t in self.threads:
            if t.status == DONE:
                continue
            f = frames.get(t.ident)
            st = [
                f'{fr.filename.rsplit("/", 1)[-1]}:{fr.lineno}:{fr.name}'
                for fr in (traceback.extract_stack(f) if f else [])
                if 'vsched' not in fr.filename and 'threading.py' not in fr.filename
            ]
            out.append(f'  {t.name} [{t.status}] ' + ' > '.join(st[-7:]))
        return '\n'.join(out)

    # -- scheduling points -------------------------------------------------------------
    def point(self):
        if self.aborting:
            raise Abort
        me = self.current
        if me.ident != _get_ident():
            return
        steps = self.steps = self.steps + 1
        if steps > self.max_steps:
            self.fail('no progress', f'{steps} scheduling points without completing')
        now = self.now = self.now + self.tick
        if now > self.max_time:
            self.fail('no progress', f'{now} virtual seconds without completing')
        if now >= self.next_due:
            self._wake_due()
        if steps >= self.next_switch:
            if self.mode == 'random':
                self.next_switch = self._geo()
            else:  # pct change point
                self.lowprio -= 1
                me.prio = self.lowprio
                self.next_switch = self.changes.pop(0) if self.changes else float('inf')
            self._switch(me, self._pick())
            return
        if self.mode == 'pct':
            if steps >= self.reshuffle:  # no thread is starved for ever
                self.reshuffle = steps + self.fairness * 2
                self.lowprio = 0
                for t in self.threads:
                    t.prio = self.rng.random()
            nxt = self._pick()
            if nxt is not me:
                self._switch(me, nxt)
        elif self.mode == 'seq':
            me.run_len += 1
            if me.run_len > self.fairness:
                me.run_len = 0
                nxt = self._pick(exclude=me)
                self._switch(me, nxt)

    def block(self, obj, deadline=None):
        """Wait until some thread wakes the waiters of obj, or until the deadline."""
        if self.aborting:
            raise Abort
        me = self.current
        me.status, me.waiting_on, me.deadline, me.timed_out = BLOCKED, obj, deadline, False
        if deadline is not None and deadline < self.next_due:
            self.next_due = deadline
        self._reschedule(me)
        me.waiting_on = None
        me.deadline = None
        if me.pending is not None:
            self._interrupted(me)
        return not me.timed_out

    def _interrupted(self, me):
        e, me.pending = me.pending, None
        raise e

    def interrupt(self, thread, exc):
        """Raise exc in a thread that waits, as a signal handler would; False if it does not."""
        vt = self.by_thread[id(thread)]
        if vt.status not in (BLOCKED, SLEEPING):
            return False
        f = sys._current_frames().get(vt.ident)
        while f is not None:  # Condition.wait itself does not survive it there
            if f.f_code.co_name == '_acquire_restore':
                return False
            f = f.f_back
        vt.pending = exc
        vt.status = RUN
        vt.deadline = None
        return True

    def waits(self, thread):
        return self.by_thread[id(thread)].status in (BLOCKED, SLEEPING)

    def quiet(self):
        """Does every thread but the running one wait?"""
        return all(t.status != RUN for t in self.threads if t is not self.current)

    def wake(self, obj):
        for t in self.threads:
            if t.status == BLOCKED and t.waiting_on is obj:
                t.status = RUN
                t.deadline = None

    def sleep(self, d, over=None):
        if self.aborting:
            raise Abort
        if d < 0:
            raise ValueError('sleep length must be non-negative')
        me = self.current
        self.steps += 1
        if self.steps > self.max_steps:
            self.fail('no progress', f'{self.steps} scheduling points without completing')
        me.status = SLEEPING
        me.deadline = self.now + d + (self.oversleep if over is None else over)
        if me.deadline < self.next_due:
            self.next_due = me.deadline
        self._reschedule(me)
        me.deadline = None
        if me.pending is not None:
            self._interrupted(me)

    def _reschedule(self, me):
        nxt = self._pick()
        if nxt is None:
            self.fail('deadlock', 'every thread waits and no wait has a deadline')
        if self.now > self.max_time:
            self.fail('no progress', f'{self.now} virtual seconds without completing')
        self._switch(me, nxt)

    def is_waiting(self, vt):
        return vt.status == BLOCKED

    # -- threads -----------------------------------------------------------------------
    def _start(self, func, args, kwargs):
        if self.current in self.no_thread:
            self.no_thread.discard(self.current)
            raise RuntimeError("can't start new thread")
        owner = getattr(func, '__self__', None)
        name = f't{len(self.threads)}'
        vt = self._register(name)
        if isinstance(owner, threading.Thread):
            vt.thread = owner
            vt.name = owner.name
            self.by_thread[id(owner)] = vt

        def body():
            vt.ident = _get_ident()
            vt.baton.acquire()
            try:
                if not self.aborting:
                    if self.trace:
                        sys.settrace(self._tracer)
                    try:
                        func(*args, **kwargs)
                    finally:
                        sys.settrace(None)
            except Abort:
                pass
            except BaseException as e:  # noqa
                self.thread_errors.append((vt.name, e))
            finally:
                sys.settrace(None)
                self._thread_done(vt)

        vt.ident = ident = _real_start(body, ())
        self.point()
        return ident

    def _thread_done(self, vt):
        vt.status = DONE
        if self.aborting:
            vt.exited.release()
            return
        self.wake(vt)
        nxt = self._pick()
        if nxt is None:
            if self.failure is None:
                self.failure = (
                    'deadlock', 'every thread waits and no wait has a deadline\n' + self.dump())
            self.aborting = True
            nxt = self.threads[0]
        self.current = nxt
        vt.exited.release()
        nxt.baton.release()

    def join(self, thread, timeout=None):
        vt = self.by_thread.get(id(thread))
        self.point()
        deadline = None if timeout is None else self.now + max(timeout, 0)
        while vt.status != DONE:
            if deadline is not None and self.now >= deadline:
                return
            self.block(vt, deadline)

    # -- tracing -----------------------------------------------------------------------
    def _tracer(self, frame, event, arg):
        code = frame.f_code
        r = _trace_cache.get(code)
        if r is None:
            r = _trace_cache[code] = code.co_filename.startswith(_trace_prefix)
        return self._local if r else None

    def _local(self, frame, event, arg):
        if event == 'line':
            if self.hits is not None:
                self.hits.add((frame.f_code.co_filename, frame.f_lineno))
            self.point()
        return self._local

    # -- running -----------------------------------------------------------------------
    def run(self, fn):
        global ACTIVE
        assert INSTALLED and ACTIVE is None
        main = self._register('main')
        main.ident = _get_ident()
        self.current = main
        ACTIVE = self
        old_hook = threading.excepthook
        threading.excepthook = self._excepthook
        try:
            if self.trace:
                sys.settrace(self._tracer)
            try:
                fn(self)
            finally:
                sys.settrace(None)
        except Abort:
            pass
        except BaseException as e:  # noqa
            self.error = e
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                pass
        finally:
            sys.settrace(None)
            self.aborting = True
            for t in self.threads[1:]:
                if t.status != DONE:
                    self.current = t
                    t.baton.release()
                    t.exited.acquire()
            self.current = None
            ACTIVE = None
            threading.excepthook = old_hook
        return self

    def _excepthook(self, args):
        if args.exc_type is not Abort and not self.aborting:
            name = args.thread.name if args.thread else '?'
            self.thread_errors.append((name, args.exc_value))


_trace_prefix = '/repo/stream2py/'
_trace_cache = {}


# ---------------------------------------------------------------------------------------
class VLock:
    """threading.Lock under the scheduler."""

    __slots__ = ('_locked', '_taken_by', '__weakref__')

    def __init__(self):
        self._locked = False
        self._taken_by = None

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        if s is None or s.current is None or s.current.ident != _get_ident():
            if self._locked and not blocking:
                return False
            self._locked = True
            return True
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        s.point()
        if not self._locked:
            self._locked = True
            self._taken_by = s.current
            return True
        if not blocking or timeout == 0:
            if self._taken_by is not s.current:  # not Condition asking whether it is the owner
                s.now += 5e-4  # a loop polling with a zero timeout takes time
            return False
        deadline = None if timeout is None or timeout < 0 else s.now + timeout + s.oversleep
        while True:
            s.block(self, deadline)
            if not self._locked:
                self._locked = True
                self._taken_by = s.current
                return True
            if deadline is not None and s.now >= deadline:
                return False

    def release(self):
        s = ACTIVE
        if s is None or s.aborting or s.current is None or s.current.ident != _get_ident():
            self._locked = False
            return
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._locked = False
        s.wake(self)
        s.point()

    acquire_lock, release_lock = acquire, release

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False


def _v_start_new_thread(func, args, kwargs={}):
    s = ACTIVE
    if s is None or not s.managed():
        return _real_start(func, args, kwargs)
    return s._start(func, args, kwargs)


def _v_sleep(d):
    s = ACTIVE
    if s is not None and s.managed():
        return s.sleep(d)
    return None  # outside a run nobody has to wait (object teardown)


_real_event_wait = threading.Event.wait


def _v_event_wait(self, timeout=None):
    r = _real_event_wait(self, timeout)
    s = ACTIVE
    if not r and timeout is not None and timeout <= 0 and s is not None and s.managed():
        s.sleep(max(5e-4, s.oversleep), 0)  # a loop polling without waiting does not hold up the others for ever
    return r


def _now():
    s = ACTIVE
    if s is not None and s.managed():
        s.now += 1e-6
        return s.now
    return None


def _v_time():
    n = _now()
    return _real_time() if n is None else EPOCH + n


def clocks(s):
    """The time of day by the clocks that code may look at (datetime's is the real one)."""
    return EPOCH + s.now, _real_time()


def _v_monotonic():
    n = _now()
    return _real_monotonic() if n is None else 1000.0 + n


def _v_perf():
    n = _now()
    return _real_perf() if n is None else 500.0 + n


def _v_join(self, timeout=None):
    s = ACTIVE
    if s is not None and s.managed() and id(self) in s.by_thread:
        if self is threading.current_thread():
            raise RuntimeError('cannot join current thread')
        s.join(self, timeout)
        return None
    if s is None and INSTALLED and self.ident is not None:
        return None  # teardown: every managed thread has ended
    return _real_join(self, timeout)


def _v_is_alive(self):
    s = ACTIVE
    if s is not None and id(self) in s.by_thread:
        return s.by_thread[id(self)].status != DONE
    return _real_is_alive(self)


def install(trace_prefix='/repo/stream2py/'):
    global INSTALLED, _trace_prefix
    if INSTALLED:
        return
    assert not any(m == 'stream2py' or m.startswith('stream2py.') for m in sys.modules)
    _trace_prefix = trace_prefix
    threading.Lock = VLock
    threading._allocate_lock = VLock
    threading.RLock = threading._PyRLock
    threading._start_new_thread = _v_start_new_thread
    threading.Thread.join = _v_join
    threading.Event.wait = _v_event_wait
    threading.Thread.is_alive = _v_is_alive
    threading._time = _v_monotonic
    time.sleep = _v_sleep
    time.time = _v_time
    time.monotonic = _v_monotonic
    time.perf_counter = _v_perf
    time.time_ns = lambda: int(_v_time() * 1e9)
    time.monotonic_ns = lambda: int(_v_monotonic() * 1e9)
    queue.SimpleQueue = queue._PySimpleQueue
    sys.unraisablehook = lambda a: None
    INSTALLED = True
