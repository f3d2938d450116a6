"""C29: any object with the source interface can be streamed."""
import time
import types

from lib import vsched
from lib.harness import call, same, show
from lib.sources import KIND_NAMES, KINDS, Log

ID = 'C29'
TECHNIQUE = 'runtime monitoring: streams over sources of every shape compared with one model; refusals observed'
RULE = (
    'sources written as plain classes, slotted classes, classes themselves, modules, namespaces '
    'of functions, dataclass-like objects and subclasses of each base class (with and without '
    'calling its constructor), with info and pause as properties or attributes and key, open, '
    'read, close as methods, static or class methods, callables or functions, or with nothing but the required parts; each is streamed '
    'and read by every query and compared with the model, or lacks one part and must be refused '
    'untouched; non-trivial: the stream delivered items'
)
ASSUMPTIONS = ['a source without a base class of the library has each part as an attribute of '
               'its own or of its class (not made on access)']
QUICK = 4000
THOROUGH = 60000
MIN = {'streams': 1000, 'refused': 250, 'items delivered': 8000, 'sessions': 1400,
       'info compared': 1400, 'pauses measured': 1500,
       'sources with the least': 150}
PARTS = ['open', 'read', 'close', 'key', 'info', 'sleep_time_on_read_none_s']


class Core:
    """What the source does; the shapes only dress it."""

    def __init__(self, s, items, keyfn, info, rng):
        self.s, self.items, self.keyfn, self.theinfo = s, items, keyfn, info
        self.log = Log(s)
        self.script = []
        for x in items:
            while rng.random() < 0.2:
                self.script.append(None)
            self.script.append(x)
        self.pos = 0

    def open(self):
        self.log.ev('open')
        self.pos = 0

    def read(self):
        v = self.script[self.pos] if self.pos < len(self.script) else None
        self.pos += 1
        self.log.ev('read', v)
        return v

    def close(self):
        self.log.ev('close')

    def key(self, data):
        return self.keyfn(data)


class Callable:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *a):
        return self.fn(*a)


def functions(c):
    return dict(open=lambda: c.open(), read=lambda: c.read(), close=lambda: c.close(),
                key=lambda d: c.key(d))


def refuse():
    raise TypeError('a source has no truth value and is not compared')


def shape(rng, c, pause, without=None):
    """(name, source)"""
    import stream2py

    fs = functions(c)
    data = dict(info=c.theinfo, sleep_time_on_read_none_s=pause)
    name = rng.choice(['class', 'class', 'slots', 'namespace', 'module', 'itself', 'callables',
                       'SourceReader', 'QuickSourceReader', 'StreamSource', 'StreamSource()',
                       'Source', 'mixed'])
    if without is not None and name in ('SourceReader', 'QuickSourceReader', 'StreamSource',
                                        'StreamSource()', 'Source'):
        name = 'class'
    parts = {**fs, **data}
    # special methods that make no difference to a stream
    odd = rng.choice([{}, {}, {}, {'__bool__': lambda self: False}, {'__len__': lambda self: 0},
                      {'__eq__': lambda self, other: True, '__hash__': None},
                      {'__eq__': lambda self, other: refuse(), '__hash__': None,
                       '__bool__': lambda self: refuse()}])
    if without is not None:
        del parts[without]

    def methods(d, props):
        ns = {}
        for k, f in d.items():
            if k in data:
                ns[k] = property(lambda self, v=f: v) if props else f
            elif k == 'key':
                how = rng.choice(['method', 'static', 'class'])
                ns[k] = {'method': lambda self, x, f=f: f(x), 'static': staticmethod(f),
                         'class': classmethod(lambda cls, x, f=f: f(x))}[how]
            else:
                ns[k] = lambda self, f=f: f()
        return ns

    if name == 'class':
        return name, type('S', (), {**methods(parts, rng.random() < 0.6), **odd})()
    if name == 'slots':
        ns = methods(parts, True)
        return name, type('S', (), dict(ns, __slots__=(), **odd))()
    if name == 'namespace':
        return name, types.SimpleNamespace(**parts)
    if name == 'module':
        m = types.ModuleType('a_source')
        vars(m).update(parts)
        return name, m
    if name == 'itself':
        ns = {k: staticmethod(v) if k in fs else v for k, v in parts.items()}
        return name, type('S', (), ns)
    if name == 'callables':
        return name, types.SimpleNamespace(
            **{k: Callable(v) if k in fs else v for k, v in parts.items()})
    if name == 'mixed':
        some = {k: v for k, v in parts.items() if rng.random() < 0.5}
        o = type('S', (), methods(some, rng.random() < 0.5))()
        for k, v in parts.items():
            if k not in some:
                setattr(o, k, v)
        return name, o
    if name == 'QuickSourceReader':
        ns = methods({k: parts[k] for k in ('read', 'key', 'info')}, True)
        if rng.random() < 0.5:
            ns.update(methods({k: parts[k] for k in ('open', 'close')}, True))
        else:
            base = stream2py.source_reader.QuickSourceReader

            def opens(self):
                c.open()
                base.open(self)

            def closes(self):
                c.close()
                base.close(self)

            ns.update(open=opens, close=closes)
        ns['sleep_time_on_read_none_s'] = pause
        return name, type('S', (base_of(name),), {**ns, **odd})()
    ns = methods(parts, True)
    if pause is None and name != 'Source':
        del ns['sleep_time_on_read_none_s']  # inherited
    if name == 'StreamSource':
        ns['__init__'] = lambda self: None  # does not call the one of the base
    return name, type('S', (base_of(name.rstrip('()')),), {**ns, **odd})()


def base_of(name):
    import stream2py
    import stream2py.source_reader

    return getattr(stream2py, name, None) or getattr(stream2py.source_reader, name)


def bare(rng, ctx):
    """A source that has only what must be written; the base classes provide the rest."""
    from stream2py import StreamBuffer

    s = ctx.sched(rng, seq=True, tick=0)

    def main(s):
        base = rng.choice(['QuickSourceReader', 'QuickSourceReader', 'SourceReader', 'StreamSource'])
        kind = rng.choice(['int', 'negint', 'float', 'strkey', 'tupletuple', 'datetime', 'bytes'])
        mk, key = KINDS[kind]
        items = [mk(i) for i in range(rng.choice([1, 4, 12]))]
        c = Core(s, items, key, None, rng)
        ns = dict(read=lambda self: c.read())
        quick = base == 'QuickSourceReader'
        if not quick:
            ns.update(open=lambda self: c.open(), close=lambda self: c.close(),
                      key=lambda self, d: d)
        src = type('S', (base_of(base),), ns)()
        ctx.describe(bare=base, kind=kind, items=len(items))
        stream = StreamBuffer(src, maxlen=None)
        ctx.count('sources with the least')
        for session in range(rng.choice([1, 2])):
            c.pos = 0
            log0 = len(c.log)
            t0 = vsched.clocks(s)
            o = call(stream.start)
            ctx.check(o[0] == 'ret', 'start failed', f'{base}: {show(o)}')
            r = stream.mk_reader(ignore_no_item_found=True)
            info = r.source_reader_info
            if quick:
                t = info.get('open_time')
                ctx.check(isinstance(t, int) and any(abs(t / 1e6 - u) < 1 for u in t0),
                          'open time', f'{t}, now {t0}')
                ctx.check(info.get('open_instance') == str(src), 'info', repr(info))
                ctx.check(src.read_idx == 0 and src.closed is False, 'state when open',
                          f'{src.read_idx} {src.closed}')
            else:
                ctx.check(info == {}, 'info', repr(info))
            time.sleep(len(c.script) * 0.3 + 1)
            got = []
            while True:
                o = call(r.read)
                ctx.check(o[0] == 'ret', 'read failed', f'{base}: {show(o)}')
                if o[1] is None:
                    break
                got.append(o[1])
                ctx.check(same(r.last_key, o[1]), 'last_key', repr(r.last_key))
            ctx.check(same(got, items), 'items', f'{base}: {got!r}; due {items!r}')
            stream.stop()
            time.sleep(1)
            if quick:
                ctx.check(src.closed is True, 'state when closed', repr(src.closed))
            last = None
            for e in c.log[log0:]:
                if e.what == 'read' and last is not None and last.val is None:
                    ctx.count('pauses measured')
                    ctx.check(abs(e.t - last.t - 0.3) < 0.01, 'pause', f'{e.t - last.t} due 0.3')
                last = e if e.what == 'read' else None
            ctx.interesting('bare', base, kind, session, len(items))

    ctx.run(s, main, allow=())


def case(rng, ctx):
    from stream2py import BufferReader, StreamBuffer

    if ctx.case_id % 8 == 5:
        return bare(rng, ctx)
    s = ctx.sched(rng, seq=rng.random() < 0.7, tick=0)

    def main(s):
        kind = rng.choice(KIND_NAMES)
        mk, key = KINDS[kind]
        items = [mk(i) for i in range(rng.choice([1, 2, 9, 20]))]
        pause = rng.choice([None, 0.02, 0.5])
        info = {'about': kind, 'x': [1]}
        c = Core(s, items, key, info, rng)
        without = rng.choice(PARTS) if rng.random() < 0.25 else None
        name, src = shape(rng, c, pause, without)
        ctx.describe(shape=name, kind=kind, items=len(items), without=without, pause=pause)
        kw = dict(maxlen=rng.choice([None, 100, 20]))
        if without is not None:
            ctx.count('refused')
            ctx.seen('refused shapes', (name, without))
            o = call(lambda: StreamBuffer(src, **kw))
            ctx.check(o[0] == 'exc', 'not refused', f'a source ({name}) without {without}')
            ctx.check(not c.log, 'a refused source was used', repr(c.log))
            return
        o = call(lambda: StreamBuffer(src, **kw))
        ctx.check(o[0] == 'ret', 'refused', f'a source ({name}): {show(o)}')
        stream = o[1]
        ctx.count('streams')
        ctx.seen('shapes', (name, kind, pause))
        ctx.check(not c.log, 'source used before the start', repr(c.log))
        for session in range(rng.choice([1, 1, 2])):
            ctx.count('sessions')
            log0 = len(c.log)
            o = call(stream.start)
            ctx.check(o[0] == 'ret', 'start failed', f'{name}: {show(o)}')
            time.sleep(len(c.script) * (pause or 0.3) + 1)
            r = stream.mk_reader(ignore_no_item_found=True)
            ctx.check(type(r) is BufferReader, 'reader class', repr(type(r)))
            for got in (r.source_reader_info, stream.source_reader_info):
                ctx.count('info compared')
                ctx.check(got == info, 'info', f'{got!r}, due {info!r}')
            o = call(r.range, key(items[0]), key(items[-1]), peek=True)
            ctx.check(o[0] == 'ret' and same(o[1], items), 'range', f'{name}: {show(o)}')
            got = []
            while True:
                o = call(r.read)
                ctx.check(o[0] == 'ret', 'read failed', f'{name}: {show(o)}')
                if o[1] is None:
                    break
                got.append(o[1])
                ctx.check(same(r.last_key, key(o[1])), 'last_key', repr(r.last_key))
            ctx.check(same(got, items), 'items', f'{name}: {got!r}; due {items!r}')
            ctx.count('items delivered', len(got))
            ctx.check(same(r.head(), items[0]) and same(r.tail(), items[-1]), 'ends', name)
            stream.stop()
            time.sleep(1)
            whats = [e.what for e in c.log[log0:]]
            ctx.check(whats[0] == 'open' and whats.count('open') == 1 and whats[-1] == 'close'
                      and whats.count('close') == 1, 'protocol', f'{name}: {whats}')
            last = None
            due = 0.3 if pause is None else pause
            for e in c.log[log0:]:
                if e.what == 'read' and last is not None and last.val is None:
                    ctx.count('pauses measured')
                    ctx.check(abs(e.t - last.t - due) < 0.01, 'pause', f'{e.t - last.t} due {due}')
                last = e if e.what == 'read' else None
            ctx.interesting(name, kind, session, pause, len(items))

    ctx.run(s, main, allow=())
