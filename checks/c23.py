"""C23: sources iterate their data and report open and closed truthfully."""
import datetime
import os
import random
import threading
import time

from lib import vsched
from lib.harness import SrcError, call, show

ID = 'C23'
TECHNIQUE = 'runtime monitoring: recorded reads and pauses compared with what iteration yields, in virtual time'
RULE = (
    'subclasses of the three source base classes whose reads return random mixes of data '
    '(falsy ones, too), None, rejected values and errors, iterated by one or several iterators with '
    'several pauses, validity tests and no-data actions; contexts entered and left normally and by '
    'any exception, repeatedly, with failing opens; timestamps in several units and time zones '
    'against the clock; non-trivial: data and no-data reads were mixed'
)
ASSUMPTIONS = ['a body that is left closes the source; a source whose close fails is not judged']
QUICK = 30000
THOROUGH = 1000000
MIN = {'values yielded': 40000, 'no-data reads': 25000, 'pauses timed': 18000, 'actions called': 6000,
       'contexts': 8000, 'exceptions in the body': 2500, 'timestamps': 15000,
       'iterators side by side': 3000, 'errors of read': 1500}
EXCS = [ValueError, SrcError, KeyboardInterrupt, GeneratorExit, StopIteration, SystemExit]


def case(rng, ctx):
    x = rng.random()
    if x < 0.6:
        iteration(rng, ctx)
    elif x < 0.85:
        contexts(rng, ctx)
    else:
        timestamps(rng, ctx)


VALUES = [0, 1, '', 'a', False, True, [], [1], (), 0.0, b'', -1, 'None', {}]


class Weird:
    """Equal to everything, also to None, and has no truth value."""

    def __eq__(self, other):
        return True

    __hash__ = None

    def __bool__(self):
        raise TypeError('no truth value')


def mk(base, rng, reads, log, pauses):
    """A source of the given base class whose reads give the entries of reads."""

    class S(base):
        def read(self):
            log.append(('read', time.monotonic()))
            if not reads:
                raise Done()
            v = reads.pop(0)
            if isinstance(v, BaseException):
                raise v
            return v

        if base.__name__ != 'QuickSourceReader':
            def open(self):
                log.append(('open', None))

            def close(self):
                log.append(('close', None))

            info = {}

            def key(self, data):
                return data

    return S


class Done(Exception):
    """No more reads are scripted."""


def bases():
    from stream2py import SourceReader, StreamSource
    from stream2py.source_reader import QuickSourceReader

    return {'SourceReader': SourceReader, 'QuickSourceReader': QuickSourceReader,
            'StreamSource': StreamSource}


def iteration(rng, ctx):
    name = rng.choice(['SourceReader', 'QuickSourceReader', 'QuickSourceReader', 'StreamSource'])
    s = ctx.sched(random.Random(rng.getrandbits(60)), seq=True, oversleep=1e-6)

    def main(s):
        base = bases()[name]
        log, actions = [], []
        p = rng.choice([0, 0.2, 0.5, 0.8])
        reads = []
        for _ in range(rng.choice([0, 1, 5, 12, 30])):
            if rng.random() < p:
                reads.append(None)
            else:
                reads.append(Weird() if rng.random() < 0.1 else rng.choice(VALUES))
        err = None
        if rng.random() < 0.2:
            err = rng.choice([SrcError, KeyError, OSError])('read')
            reads.insert(rng.randint(0, len(reads)), err)
        script = list(reads)
        cls = mk(base, rng, reads, log, None)
        valid = lambda v: v is not None  # noqa: E731
        custom_action = False
        if name == 'QuickSourceReader':
            k = rng.randrange(4)
            if k == 1:
                valid = lambda v: isinstance(v, (int, str, type(None)))  # noqa: E731
            elif k == 2:
                valid = lambda v: not (v is None or isinstance(v, (list, Weird)))  # noqa: E731
            if k:
                class V(cls):
                    def is_valid_data(self, data):
                        return valid(data)
                cls = V
            if rng.random() < 0.5:
                custom_action = True

                class A(cls):
                    def when_no_data(self, *a, **k):
                        actions.append((a, k))
                cls = A
        pause = None
        if rng.random() < 0.3:
            class P(cls):
                _sleep_time_on_iter_none_s = 0.002
            cls, pause = P, 0.002
        src = cls()
        default = pause if pause is not None else 0.001
        if rng.random() < 0.7:
            pause = rng.choice([0, 0.0005, 0.02, 1, 7.5])
            src.set_sleep_time_on_iter_none(pause)
        else:
            pause = default
            if rng.random() < 0.3:
                src.set_sleep_time_on_iter_none()
                pause = 0.001 if name != 'StreamSource' else None
        n_iters = rng.choice([1, 1, 1, 2, 3])
        stops_at = None
        if name == 'StreamSource' and rng.random() < 0.4:
            stops_at = rng.choice([0, 1, 5])
            src.is_stopped = False
        ctx.describe(base=name, reads=len(script), pause=pause, iterators=n_iters,
                     action=custom_action, stops_at=stops_at)
        if n_iters > 1:
            ctx.count('iterators side by side')
        its = [iter(src) for _ in range(n_iters)]
        ctx.check(len({id(i) for i in its}) == n_iters, 'iterators are shared', name)
        pos = 0  # reads of the script consumed so far
        got = 0
        for step in range(len(script) * 2 + 5):
            if stops_at is not None and got >= stops_at:
                src.is_stopped = True
            log.clear()
            actions.clear()
            t0 = time.monotonic()
            if rng.random() < 0.1:
                pause = rng.choice([0.003, 0.5])
                src.set_sleep_time_on_iter_none(pause)
            o = call(next, its[rng.randrange(len(its))])
            # what should have happened
            skipped = []
            q = pos
            while q < len(script) and not isinstance(script[q], BaseException) \
                    and not valid(script[q]):
                skipped.append(script[q])
                q += 1
                if stops_at is not None and src.is_stopped:
                    break
            n_reads = sum(e[0] == 'read' for e in log)
            ctx.count('no-data reads', len(skipped))
            if stops_at is not None and src.is_stopped and skipped:
                ctx.check(o[0] == 'exc' and isinstance(o[1], StopIteration),
                          'a stopped source goes on', show(o))
                ctx.count('stopped sources')
                break
            if q == len(script):
                ctx.check(o[0] == 'exc' and isinstance(o[1], Done), 'reads not all tried', show(o))
                ended = True
            elif isinstance(script[q], BaseException):
                ctx.check(o[0] == 'exc' and o[1] is script[q], 'error of read', show(o))
                ctx.count('errors of read')
                ended = True
            else:
                ctx.check(o[0] == 'ret' and o[1] is script[q], 'value yielded',
                          f'{show(o)}, due {script[q]!r} at read {q}')
                ctx.count('values yielded')
                got += 1
                ended = False
            ctx.check(n_reads == q - pos + 1, 'reads made', f'{n_reads}, due {q - pos + 1}')
            if custom_action:
                ctx.check(len(actions) == len(skipped), 'no-data action',
                          f'called {len(actions)} times for {len(skipped)} reads')
                for (a, k), v in zip(actions, skipped):
                    ctx.check(not k and len(a) == 1 and a[0] is v
                              or not a and list(k.values()) == [v], 'no-data action argument',
                              f'{a} {k}, due {v!r}')
                    ctx.count('actions called')
                ctx.check(time.monotonic() - t0 < 0.001, 'pause beside the action', '')
            elif pause is not None:
                times = [e[1] for e in log if e[0] == 'read']
                for a, b in zip(times, times[1:]):
                    ctx.check(pause <= b - a + 1e-9 and b - a <= pause + 0.0009,
                              'pause after no data', f'{b - a} s, set to {pause}')
                    ctx.count('pauses timed')
                ctx.check(times[0] - t0 < 0.0009, 'pause before a read', f'{times[0] - t0}')
                ctx.check(time.monotonic() - times[-1] < 0.0009, 'pause after data',
                          f'{time.monotonic() - times[-1]}')
            pos = q + 1
            if ended:
                break
        if any(v is None for v in script) and got:
            ctx.interesting(name, tuple(type(v).__name__ for v in script), pause)

    ctx.run(s, main, allow=())


def contexts(rng, ctx):
    name = rng.choice(['SourceReader', 'SourceReader', 'QuickSourceReader'])
    base = bases()[name]
    log = []
    fail = []
    calls_base = name == 'QuickSourceReader'

    class S(base):
        def open(self):
            log.append(('open', self.closed))
            if calls_base:
                super().open()
            if fail:
                raise fail.pop()

        def close(self):
            log.append(('close', None))
            if calls_base:
                super().close()

        def read(self):
            return 1

        def key(self, data):
            return data

    src = S()
    ctx.describe(base=name)
    ctx.check(src.closed is True, 'closed at first', str(src.closed))
    for _ in range(rng.choice([1, 2, 4])):
        log.clear()
        exc = rng.choice(EXCS)('body') if rng.random() < 0.4 else None
        out = None
        inside = []
        failing = None
        if rng.random() < 0.15 and not calls_base:
            failing = SrcError('open')
            fail.append(failing)
        how = rng.randrange(2)
        ctx.count('contexts')
        try:
            if how == 0:
                with src as v:
                    inside.append((v, src.closed, list(log)))
                    if rng.random() < 0.3:
                        call(src.read)
                        inside.append((v, src.closed, list(log)))
                    if exc is not None:
                        raise exc
            else:
                v = src.enter()
                inside.append((v, src.closed, list(log)))
                if exc is not None:
                    ctx.check(not src.exit(type(exc), exc, None), 'exception suppressed', name)
                    raise exc
                src.exit(None, None, None)
        except BaseException as e:
            if type(e).__name__ == 'Violation':
                raise
            out = e
        if failing is not None:
            ctx.check(out is failing and not inside, 'failed open', f'{out!r} {inside}')
            ctx.check(src.closed is True, 'closed after a failed open', str(src.closed))
            ctx.count('failed opens')
            continue
        ctx.check(out is exc, 'exception of the body', f'{out!r}, raised {exc!r}')
        if exc is not None:
            ctx.count('exceptions in the body')
        for v, closed, seen in inside:
            ctx.check(v is src, 'value of the context', repr(v))
            ctx.check(closed is False, 'closed inside', str(closed))
            ctx.check([e[0] for e in seen] == ['open'], 'opened on entry', str(seen))
        ctx.check([e[0] for e in log] == ['open', 'close'], 'closed once on exit', str(log))
        ctx.check(src.closed is True, 'closed flag outside', str(src.closed))
        ctx.check(S().closed is True, 'closed flag of another source', '')
        if calls_base and rng.random() < 0.5:
            a = vsched._real_time()
            src.open()
            b = vsched._real_time()
            ctx.check(src.closed is False, 'closed after open', '')
            i = src.info
            u = src.timestamp_seconds_to_unit_conversion
            ctx.check(set(i) == {'open_time', 'open_instance'}
                      and a * u - 2 <= i['open_time'] <= b * u + 2, 'info', f'{i} at {a}')
            ctx.check(src.read_idx == 0, 'read_idx', str(src.read_idx))
            ctx.check(src.key(7) == 7 and src.key('a') == 'a', 'key of the data', '')
            src.close()
            ctx.check(src.closed is True, 'open after close', '')


ZONES = ['UTC', 'Asia/Tokyo', 'America/New_York', 'XYZ+7', 'ABC-13:30', 'Europe/Paris']


def timestamps(rng, ctx):
    zone = rng.choice(ZONES)
    os.environ['TZ'] = zone
    time.tzset()
    try:
        for name, base in bases().items():
            units = rng.choice([None, 1, 1000, 1e3, 1e6, 1e9, 10])

            class Sub(base):
                pass

            if units is not None:
                Sub.timestamp_seconds_to_unit_conversion = units
            u = 1e6 if units is None else units
            Sub.__abstractmethods__ = frozenset()
            callers = [Sub.get_timestamp, Sub().get_timestamp]
            ctx.describe(zone=zone, units=u, base=name)
            last = None
            for _ in range(3):
                f = rng.choice(callers)
                a = vsched._real_time()
                o = call(f)
                b = vsched._real_time()
                ctx.count('timestamps')
                ctx.check(o[0] == 'ret' and type(o[1]) is int, 'timestamp', f'{name}: {show(o)}')
                slack = 1 + b * u * 1e-15
                ctx.check(a * u - slack <= o[1] <= b * u + slack, 'timestamp',
                          f'{name}: {o[1]}, clock {a * u}..{b * u} in {zone}')
                ctx.check(last is None or o[1] >= last - slack, 'timestamps go back', f'{o[1]} {last}')
                last = o[1]
    finally:
        os.environ['TZ'] = 'UTC'
        time.tzset()
    ctx.seen('zones and units', (zone, u))


_ = (threading, datetime)
