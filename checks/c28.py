"""C28: the settings given to a stream take effect however it is made."""
import threading
import time

from lib.harness import call, same, show
from lib.sources import KIND_NAMES, KINDS, mk_src

ID = 'C28'
TECHNIQUE = 'runtime monitoring: observed bound, drop policy and pace of every session compared with the settings given'
RULE = (
    'streams made by StreamBuffer, stream_buffer, the helper and shared sources, with and without '
    'configure_buffer (once, repeatedly, refused later, beside other sources of the same class), '
    'with every subset of settings given, over 1-3 sessions; each session is fed to around its '
    'bound and its contents, reads and pauses compared with the settings; non-trivial: a bound was '
    'reached or an unbounded stream went past 100 items'
)
ASSUMPTIONS = ['settings are of the documented types']
QUICK = 5000
THOROUGH = 60000
MIN = {'pause 0': 100, 'windows that hold nothing': 150, 'sessions': 2500, 'streams of many sessions': 40, 'contents compared': 2500, 'pauses measured': 10000,
       'configured': 300, 'not configured': 60, 'refused configurations': 300, 'refused between sessions': 300,
       'configured again before the start': 100, 'bounds reached': 1200,
       'full and not read': 200, 'way StreamBuffer': 200, 'way stream_buffer': 150,
       'way helper': 150, 'way StreamSource': 300, 'default bound': 300, 'unbounded': 300}
EPS = 0.004
NO = object()


def case(rng, ctx):
    from stream2py import StreamBuffer
    from stream2py.simply import mk_stream_buffer

    zero = rng.random() < 0.12  # a pause of 0: the clock advances by the polls themselves
    s = ctx.sched(rng, seq=rng.random() < 0.7, tick=0, oversleep=1e-3 if zero else 1e-5,
                  trace=False)

    def main(s):
        kind = rng.choice(KIND_NAMES)
        mk, key = KINDS[kind]
        way = rng.choice(['StreamBuffer', 'stream_buffer', 'helper', 'StreamSource',
                          'StreamSource'])
        ctx.count('way ' + way)
        declared = rng.choice([None, 0, 0, 2.0] if zero else [None, None, 0.07, 2.0])
        if way == 'helper':
            declared = None

        def settings():
            kw = {}
            if rng.random() < 0.75:
                kw['maxlen'] = rng.choice([None, 0, 1, 2, 5, 30, 99, 100, 101, 150])
            if rng.random() < 0.6:
                kw['auto_drop'] = rng.random() < 0.5
            if rng.random() < 0.6:
                kw['sleep_time_on_read_none_s'] = rng.choice(
                    [None, 0, 0, 0.0, 0.3] if zero else [None, 0.05, 0.3, 1, 3.5])
            return kw

        kw = settings()
        if way == 'stream_buffer':
            kw.setdefault('maxlen', rng.choice([3, 100]))  # required there
        configured = way != 'StreamSource' or rng.random() < 0.85
        src_kind = {'StreamBuffer': rng.choice(['Src', 'SourceReader', 'StreamSource']),
                    'stream_buffer': 'SourceReader', 'helper': 'Src',
                    'StreamSource': 'StreamSource'}[way]
        src = mk_src(src_kind, s, key, pause=declared)
        other = None
        given = dict(kw)
        if way == 'StreamSource':
            ctx.count('configured' if configured else 'not configured')
            if configured:
                if rng.random() < 0.4:
                    # an earlier configuration is replaced as a whole
                    ctx.count('configured again before the start')
                    o = call(src.configure_buffer, **settings())
                    ctx.check(o[0] == 'ret' and o[1] is src, 'configure_buffer', show(o))
                o = call(src.configure_buffer, **kw)
                ctx.check(o[0] == 'ret' and o[1] is src, 'configure_buffer', show(o))
                given.setdefault('maxlen', None)
            else:
                given = {}
            if rng.random() < 0.5:
                # a source of the same class has settings of its own
                other = mk_src(src_kind, s, key, pause=declared)
                if rng.random() < 0.7:
                    other.configure_buffer(maxlen=7, auto_drop=False, sleep_time_on_read_none_s=9)
        maxlen = given.get('maxlen', 100)
        auto = given.get('auto_drop', True)
        pause = given.get('sleep_time_on_read_none_s')
        if pause is None:
            pause = 0.3 if declared is None else declared
        if pause == 0:
            ctx.count('pause 0')
        if 'maxlen' not in given:
            ctx.count('default bound')
        if maxlen is None:
            ctx.count('unbounded')
        ctx.describe(kind=kind, way=way, source=src_kind, given=kw, declared=declared,
                     configured=configured, mode=s.mode)
        cm = None
        if way == 'StreamBuffer':
            stream = StreamBuffer(src, **kw)
        elif way == 'stream_buffer':
            stream = src.stream_buffer(**kw)
        elif way == 'helper':
            hk = dict(kw)
            if 'sleep_time_on_read_none_s' in hk:
                hk['sleep_time_on_read_none_seconds'] = hk.pop('sleep_time_on_read_none_s')
            cm = mk_stream_buffer(lambda inst: src.read(), open_stream=src.open,
                                  close_stream=lambda inst: src.close(), key=key,
                                  enumerate_data=False, **hk)
            stream = None
        else:
            stream = None
        made = 0
        lots = ctx.case_id % 50 == 9  # many sessions
        ctx.count('streams of many sessions', lots)
        for session in range(rng.choice([1, 1, 2, 3]) if not lots else 9):
            src.script, src.pos = [], 0
            log0 = len(src.log)
            closing = []
            if way == 'StreamSource':
                readers = [src.open_reader() for _ in range(rng.choice([1, 2]))]
                new, closing = src.open_reader, readers
                if rng.random() < 0.6:
                    ctx.count('refused configurations')
                    o = call(src.configure_buffer, maxlen=rng.choice([None, 1, 1000]),
                             auto_drop=rng.random() < 0.5, sleep_time_on_read_none_s=7)
                    ctx.check(o[0] == 'exc', 'configuration not refused', show(o))
            elif way == 'helper':
                if session == 0:
                    stream = cm.__enter__()
                else:
                    stream.start()
                new = stream.mk_reader
            else:
                stream.start()
                new = stream.mk_reader
            ctx.count('sessions')

            def reader():
                r = new(ignore_no_item_found=True)
                if way == 'StreamSource':
                    closing.append(r)
                return r

            n = rng.choice([1, 3, 120]) if maxlen is None else max(
                1, maxlen + rng.choice([-1, 0, 1, 2, 5]))
            items = [mk(made + i) for i in range(n)]
            made += n
            # gaps of no data between the items measure the pause
            gaps = set(rng.sample(range(n), min(n, rng.choice([1, 2, 4]))))
            for i, x in enumerate(items):
                if i in gaps:
                    src.script += [('none',)] * rng.choice([1, 2])
                src.script.append(('item', x))
            time.sleep(pause * 10 + 1)
            held = items if maxlen is None else items[n - min(n, maxlen):] if auto else items[:maxlen]
            contents(ctx, reader(), held, f'session {session}')
            if maxlen is not None and n >= maxlen:
                ctx.count('bounds reached')
                ctx.count('windows that hold nothing', maxlen == 0)
                ctx.interesting(way, session, maxlen, auto, pause, n, kind)
            elif maxlen is None and n > 100:
                ctx.interesting(way, session, None, auto, pause, n, kind)
            full = not auto and maxlen is not None and n >= maxlen
            if full:
                ctx.count('full and not read')
                taken = sum(e.what == 'read<' and e.val is not None for e in src.log[log0:])
                ctx.check(taken == maxlen, 'read while full',
                          f'{taken} items were read, the bound is {maxlen}')
            if stream is not None:
                o = call(stream.drop, 1)
                if auto:
                    ctx.check(o[0] == 'exc', 'drop not refused', show(o))
                    contents(ctx, reader(), held, 'after a refused drop')
                elif held:
                    ctx.check(o == ('ret', None), 'drop failed', show(o))
                    time.sleep(pause * 4 + 1)
                    now = items[1:] if maxlen is None else items[1:maxlen + 1]
                    if now:
                        contents(ctx, reader(), now, 'after drop(1)')
            pace(ctx, src.log[log0:], pause, auto, maxlen)
            if other is not None and session == 0:
                r = other.open_reader(ignore_no_item_found=True)
                ctx.check(r.read() is None, 'other source', '')
                r.close()
                time.sleep(10)
            if way == 'StreamSource':
                for r in closing:
                    r.close()
                time.sleep(pause + 0.1)
                if rng.random() < 0.6:
                    # a later session has the settings of the first
                    ctx.count('refused between sessions')
                    o = call(src.configure_buffer, maxlen=rng.choice([None, 1, 1000]),
                             auto_drop=rng.random() < 0.5, sleep_time_on_read_none_s=7)
                    ctx.check(o[0] == 'exc', 'configuration not refused', show(o))
            else:
                stream.stop()
                time.sleep(pause + 0.1)
            ctx.check(src.log and src.log[-1].what == 'close<', 'not closed', repr(src.log[-3:]))
        if cm is not None:
            o = call(cm.__exit__, None, None, None)
            ctx.check(o[0] == 'ret', 'leaving the helper failed', show(o))

    ctx.run(s, main, allow=())


def contents(ctx, r, held, when):
    ctx.count('contents compared')
    if not held:
        o = call(r.read)
        ctx.check(o == ('ret', None), 'contents', f'{when}: nothing is due: {show(o)}')
        return
    o = call(r.read, len(held) + 1) if len(held) > 1 or not held else call(
        lambda: [r.read()])
    ctx.check(o[0] == 'ret' and isinstance(o[1], list) and same(o[1], list(held)), 'contents',
              f'{when}: ' + (f'{len(o[1])} items {o[1][:3]!r}..{o[1][-2:]!r}'
                             if isinstance(o[1], list) else show(o))
              + f'; due {len(held)} items {held[:3]!r}..{held[-2:]!r}')
    if held and len(held) == 1:
        o = call(r.read)
        ctx.check(o == ('ret', None), 'contents', f'{when}: more than {held!r}: {show(o)}')


def pace(ctx, log, pause, auto, maxlen):
    ends = None
    for e in log:
        if e.what == 'read<':
            ends = (e.t, e.val)
        elif e.what == 'read>' and ends is not None and ends[1] is None:
            gap = e.t - ends[0]
            ctx.count('pauses measured')
            ctx.check(abs(gap - pause) <= EPS, 'pause', f'{gap} s after no data, due {pause}')


_ = (threading, NO)
