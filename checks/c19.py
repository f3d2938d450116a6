"""C19: mk_stream_buffer drives its callbacks right."""
import time

from lib import vsched
from lib.harness import Inconclusive, SrcError, Violation, call, same, show
from lib.sources import KINDS

ID = 'C19'
TECHNIQUE = 'runtime monitoring: callback-boundary monitor and reader results against a model'
RULE = (
    'contexts made by mk_stream_buffer with every subset of callbacks and settings, over scripted '
    'reads with gaps of None, falsy items and failures, bodies that read, drop, restart, raise or '
    'return early; every callback is recorded with its argument, every item compared with the '
    'model; non-trivial: items were read and at least one None came between'
)
ASSUMPTIONS = ['callbacks return within a few virtual seconds']
QUICK = 3000
THOROUGH = 120000
MIN = {'contexts': 1000, 'items read': 8000, 'None read': 4000, 'bodies that raised': 200, 'bodies that were interrupted': 80,
       'failed opens': 60, 'enumerated': 900, 'plain': 300, 'pauses measured': 3000,
       'restarts inside the body': 120, 'manual drops': 200, 'default info': 500, 'falsy items': 1000, 'long runs': 5,
       'beyond the default bound': 60}


class Inst:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'Inst({self.n})'


class Falsy:
    __slots__ = ()

    def __bool__(self):
        return False


FRESH = [type(x.__name__, (x,), {}) for x in (list, dict, set, bytearray, Falsy)]
FALSY = FRESH + [int, float, str, bytes, tuple, bool, complex, frozenset]


class Body(Exception):
    pass


class Bare(BaseException):
    pass


BODIES = (Body, Body, Bare, KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration,
          RuntimeError, ValueError)


def long_run(rng, ctx):
    """Numbers and items stay right over many items."""
    from stream2py.simply import mk_stream_buffer

    s = ctx.sched(rng, seq=True, tick=0)

    def main(s):
        n = rng.choice([2_500, 11_000, 66_000])
        m = rng.choice([1, 5, 100, 1500])

        def read_stream(inst):
            k = next(counter, None)
            if k is None:
                s.point()
                return None
            if k % 1000 == 999:
                s.point()
            return -k

        counter = iter(range(n))
        with mk_stream_buffer(read_stream, maxlen=m, sleep_time_on_read_none_seconds=1.0,
                              key=lambda d: d[0]) as stream:
            time.sleep(30)
            r = stream.mk_reader(ignore_no_item_found=True)
            got = call(r.read, m + 1) if m > 1 else call(lambda: [r.read()])
            want = [(k, -k) for k in range(max(0, n - m), n)]
            ctx.check(got == ('ret', want), 'items', f'after {n} items with bound {m}: '
                      + (f'{got[1][:3]!r}..{got[1][-3:]!r}' if isinstance(got[1], list)
                         else show(got)) + f'; due {want[:3]!r}..{want[-3:]!r}')
            ctx.check(stream.is_running, 'stopped by itself', '')
        ctx.count('long runs')
        ctx.most('items of a run', n)

    ctx.run(s, main, allow=())


def case(rng, ctx):
    from stream2py.simply import mk_stream_buffer

    if ctx.case_id % 300 == 7:
        return long_run(rng, ctx)
    s = ctx.sched(rng, tick=rng.choice([0, 1e-6]))

    def main(s):
        kind = rng.choice(['int', 'float', 'strkey', 'tuple', 'dict', 'rec', 'bytes', 'lists',
                           'falsy'])
        mk, keyfn = KINDS.get(kind, (None, None))
        n = rng.choice([0, 1, 3, 10, 25] * 3 + [130])
        ctx.count('beyond the default bound', n > 100)
        enum = rng.choice([True, False, None])  # None: not given
        enumerated = enum is not False
        if mk is None:
            items = [rng.choice(FALSY if enumerated else FRESH)() for i in range(n)]
            ctx.count('falsy items', n)
        else:
            items = [mk(i) for i in range(n)]
        ev = []  # (what, argument, time)
        insts = []
        how = {}
        # what the callbacks do
        script = []
        fail_at = rng.choice([None] * 5 + [rng.randint(0, n)])
        none_p = rng.choice([0, 0.2, 0.6] if n < 100 else [0, 0.1])
        for i, x in enumerate(items):
            while rng.random() < none_p:
                script.append(None)
            script.append(x)
        while rng.random() < none_p:
            script.append(None)
        boom = rng.choice([SrcError, SrcError, SystemExit, KeyboardInterrupt])('read')
        if fail_at is not None:
            at = [j for j, x in enumerate(script) if x is not None]
            cut = at[fail_at] if fail_at < len(at) else len(script)
            script[cut:] = [boom]
            items = items[:fail_at]
        n = len(items)
        state = dict(pos=0, open=0, busy=0)

        def read_stream(inst):
            ev.append(('read', inst, s.now))
            ctx.check(not state['busy'], 'callbacks overlap', str(ev[-3:]))
            state['busy'] = 1
            s.point()
            state['busy'] = 0
            if state['pos'] < len(script):
                x = script[state['pos']]
                state['pos'] += 1
                if x is boom:
                    raise boom
                ctx.count('None read' if x is None else 'items read')
                return x
            return None

        bad_open = rng.random() < 0.08
        falsy = rng.random() < 0.2

        def open_stream():
            ctx.check(not state['busy'], 'callbacks overlap', str(ev[-3:]))
            ev.append(('open', None, s.now))
            if bad_open:
                raise SrcError('open')
            inst = (rng.choice([0, '', None]) if falsy else Inst(len(insts)))
            insts.append(inst)
            state['pos'] = 0
            return inst

        def close_stream(inst):
            ctx.check(not state['busy'], 'callbacks overlap', str(ev[-3:]))
            ev.append(('close', inst, s.now))
            if bad_close:
                raise SrcError('close')

        bad_close = rng.random() < 0.1
        given_info = {'a': object()}

        def info(inst):
            ev.append(('info', inst, s.now))
            return given_info

        def key(data):
            ev.append(('key', data, s.now))
            return -1000 + (data[0] if enumerated else pos_of(data))

        index = {id(x): i for i, x in enumerate(items)}

        def pos_of(data):
            return index[id(data)]

        kw = dict(read_stream=read_stream)
        if rng.random() < 0.8 or bad_open:
            kw['open_stream'] = open_stream
        if rng.random() < 0.8:
            kw['close_stream'] = close_stream
        if rng.random() < 0.5:
            kw['info'] = info
        ordered = kind in ('int', 'float', 'strkey', 'tuple', 'bytes', 'lists')
        if rng.random() < 0.4 or not enumerated and not ordered:
            kw['key'] = key
        maxlen = rng.choice([100, 100, None, 1, 3, 10])
        if maxlen != 100 or rng.random() < 0.5:
            kw['maxlen'] = maxlen
        auto_drop = rng.random() < 0.7
        if not auto_drop or rng.random() < 0.3:
            kw['auto_drop'] = auto_drop
        pause = rng.choice([None, 0, 0.02, 0.3, 1.0])
        if pause is not None or rng.random() < 0.3:
            kw['sleep_time_on_read_none_seconds'] = pause
        if enum is not None:
            kw['enumerate_data'] = enum
        ctx.count('enumerated' if enumerated else 'plain')
        due_pause = 0.3 if pause is None else pause
        ctx.describe(kind=kind, items=n, script=len(script), enumerate=enum, maxlen=maxlen,
                     auto_drop=auto_drop, pause=pause, given=sorted(kw), fails=fail_at,
                     mode=s.mode)
        wrapped = [(i, x) if enumerated else x for i, x in enumerate(items)]
        opened = 'open_stream' in kw
        end = rng.choice(['drain', 'drain', 'drain', 'early', 'raise', 'restart', 'iterate'])
        body = rng.choice(BODIES)('body')
        raised = None
        got = []
        ctx.count('contexts')
        t0 = s.now
        try:
            with mk_stream_buffer(**kw) as stream:
                ctx.check(not opened or len(insts) == 1, 'open_stream calls', str(ev))
                check_info(ctx, s, stream, kw, insts, given_info, opened)
                ctx.check(stream.auto_drop is auto_drop, 'auto_drop lost', '')
                if end != 'early':
                    run_body(rng, ctx, s, stream, wrapped, maxlen, auto_drop, due_pause, got,
                             fail_at is not None, len(script), end)
                if end == 'raise':
                    ctx.count('bodies that raised')
                    ctx.count('bodies that were interrupted', not isinstance(body, Exception))
                    raise body
                if end == 'restart':
                    ctx.count('restarts inside the body')
                    time.sleep(0.1)
                    del got[:]
                    if opened:
                        stream.start()
                        ctx.check(len(insts) == 2, 'open_stream calls', str(ev))
                        check_info(ctx, s, stream, kw, insts, given_info, opened)
                        run_body(rng, ctx, s, stream, wrapped, maxlen, auto_drop, due_pause, got,
                                 fail_at is not None, len(script), 'drain')
        except (SrcError,) + BODIES as e:
            # an exception of the check itself
            if isinstance(e, (Violation, Inconclusive)):
                raise
            raised = e
        t1 = s.now
        if bad_open:
            ctx.count('failed opens')
            ctx.check(isinstance(raised, SrcError), 'failed open not raised', repr(raised))
            time.sleep(5)
            names = [e[0] for e in ev]
            ctx.check('close' not in names and 'read' not in names, 'callbacks after a failed open',
                      str(names))
            return
        ctx.check(raised is (body if end == 'raise' else None), 'exception of the body', repr(raised))
        time.sleep(5)
        names = [e[0] for e in ev]
        sessions = 2 if end == 'restart' and opened else 1
        ctx.check(names.count('open') == (sessions if opened else 0), 'open_stream calls', str(names))
        closes = [e for e in ev if e[0] == 'close']
        ctx.check(len(closes) == (sessions if 'close_stream' in kw else 0), 'close_stream calls',
                  str(names))
        ctx.check(names.count('info') <= 8 * sessions, 'info calls', str(names))
        k = -1
        done = False
        for what, arg, t in ev:
            if what == 'open':
                k += 1
                done = False
                continue
            if what == 'key':
                continue
            want = insts[k] if opened else None
            ctx.check(arg is want, f'{what}_stream argument', f'{arg!r}, due {want!r}')
            ctx.check(not (done and what == 'read'), 'read after close', str(names))
            if what == 'close':
                done = True
        for e in closes[-1:]:
            ctx.check(e[2] <= t1 + due_pause + 0.5, 'closed late', f'{e[2]}, left at {t1}')
        check_pauses(ctx, s, ev, script, due_pause, state, sessions, auto_drop)
        if got and None in script:
            ctx.interesting(s.sig, kind, tuple(sorted(kw)), end)
        _ = t0

    ctx.run(s, main, allow=(SrcError, SystemExit, KeyboardInterrupt))


def check_info(ctx, s, stream, kw, insts, given_info, opened):
    got = stream.source_reader_info
    if 'info' in kw:
        ctx.check(got is given_info, 'info', repr(got))
    else:
        ctx.count('default info')
        want = insts[-1] if opened else None
        ctx.check(isinstance(got, dict) and got.get('open_instance') == str(want), 'info',
                  f'{got!r}, the open instance is {want!r}')
        now = vsched.clocks(s)
        t = got.get('open_time')
        ctx.check(isinstance(t, int) and any(u - 60 <= t / 1e6 <= u + 1 for u in now),
                  'open time', f'{t}, now {now}')
    r = stream.mk_reader()
    ctx.check(r.source_reader_info == got, 'info of a reader', repr(r.source_reader_info))


def run_body(rng, ctx, s, stream, wrapped, maxlen, auto_drop, pause, got, fails, steps, end):
    n = len(wrapped)
    r = stream.mk_reader(ignore_no_item_found=True)
    lossless = not auto_drop or maxlen is None or maxlen >= n
    begun = s.now
    limit = s.now + 20 + (steps + 5) * (pause + 0.5)
    if end == 'iterate' and fails:
        for x in r:
            got.append(x)
            if not auto_drop:
                stream.drop()
                ctx.count('manual drops')
    else:
        while s.now < limit:
            x = r.read()
            if x is not None:
                got.append(x)
                if not auto_drop:
                    out = call(stream.drop)
                    ctx.check(out == ('ret', None), 'drop failed', show(out))
                    ctx.count('manual drops')
                continue
            if n and got and same_item(got[-1], wrapped[-1]) or not n and s.now > begun + 1.5:
                break
            if fails and r.is_stopped and r.read(peek=True) is None:
                break
            time.sleep(0.05)
    if lossless:
        ctx.check(len(got) == n and all(map(same_item, got, wrapped)), 'items',
                  f'received {got!r}; due {wrapped!r}')
    else:
        it = iter(wrapped)
        ctx.check(all(any(same_item(x, w) for w in it) for x in got), 'items',
                  f'received {got!r}; due, in order, some of {wrapped!r}')
        if n:
            ctx.check(got and same_item(got[-1], wrapped[-1]), 'last item', repr(got[-1:]))
            a = stream.mk_reader(ignore_no_item_found=True)
            held = []
            while True:
                x = a.read()
                if x is None:
                    break
                held.append(x)
            ctx.check(len(held) == min(maxlen, n) and all(
                map(same_item, held, wrapped[n - min(maxlen, n):])), 'window',
                f'held {held!r}, bound {maxlen}')
    if not fails:
        ctx.check(stream.is_running, 'stopped by itself', '')
    if auto_drop:
        o = call(stream.drop)
        ctx.check(o[0] == 'exc', 'drop not refused', show(o))


def same_item(a, b):
    if isinstance(b, tuple) and len(b) == 2 and isinstance(a, tuple) and len(a) == 2:
        return a == b or a[0] == b[0] and a[1] is b[1]
    return a is b or same(a, b) and type(b) not in FRESH


def check_pauses(ctx, s, ev, script, pause, state, sessions, auto_drop):
    """After a None the next read comes no sooner than the pause."""
    if sessions > 1 or not auto_drop:
        return
    reads = [e[2] for e in ev if e[0] == 'read']
    for i in range(len(reads) - 1):
        none = i >= len(script) or script[i] is None
        if none:
            ctx.count('pauses measured')
            ctx.check(reads[i + 1] - reads[i] >= pause - 1e-9, 'pause',
                      f'read again {reads[i + 1] - reads[i]} s after None, pause {pause}')
            ctx.check(reads[i + 1] - reads[i] <= pause + 0.2, 'pause',
                      f'read again {reads[i + 1] - reads[i]} s after None, pause {pause}')
