"""C25: custom readers and attached readers are full readers of their stream."""
import random
import threading
import time

from lib.conc import Stream, query_args
from lib.harness import call, same, show
from lib.model import ReaderModel, invoke
from lib.oddinfo import odd_infos
from lib.sources import KINDS, mk_src

ID = 'C25'
TECHNIQUE = 'runtime monitoring: class and options of every reader made; attached readers against the window model'
RULE = (
    'sources of three kinds specifying their reader class in the ways the library offers (or none), '
    'readers made by every means with random options, infos also falsy and odd; readers attached back and forth between two '
    'running, stopped and restarted streams, then queried in all ways while the sources append, '
    'compared with what the window model of the stream they are attached to gives for the kept '
    'cursor; non-trivial: a reader with a cursor was attached'
)
ASSUMPTIONS = ['both streams have keys of one scale', 'custom classes derive from BufferReader']
QUICK = 4500
THOROUGH = 90000
MIN = {'readers made': 3500, 'readers of custom classes': 2800, 'attached': 4000,
       'attached with a cursor': 2000, 'attached to a stopped stream': 500,
       'attached to a new session': 300, 'queries after attaching': 10000,
       'forward reads after attaching': 3000}


def case(rng, ctx):
    if ctx.case_id % 30 == 13:
        return odd_infos(rng, ctx)
    x = rng.random()
    if x < 0.53:
        classes(rng, ctx)
    elif x < 0.70:
        attach_concurrent(rng, ctx)
    else:
        attach_sessions(rng, ctx)


def classes(rng, ctx):
    from stream2py import BufferReader, StreamBuffer

    s = ctx.sched(random.Random(rng.getrandbits(60)), seq=True)

    def main(s):
        made = []

        class Reader(BufferReader):
            def __init__(self, *a, extra=0, **k):
                super().__init__(*a, **k)
                self.extra = extra
                made.append(self)

            def twice(self):
                return self.read(), self.read()

        class Reader2(Reader):
            pass

        class Plain(BufferReader):
            pass

        custom = rng.choice([Reader, Reader, Reader2, Plain, None])
        base = rng.choice(['Src', 'SourceReader', 'StreamSource', 'StreamSource'])
        mk, key = KINDS[rng.choice(['int', 'tuple', 'dict', 'rec'])]
        n = rng.choice([3, 8, 20])
        items = [mk(i) for i in range(n)]
        src = mk_src(base, s, key, by_session=lambda k: [('item', x) for x in items], pause=0.05)
        way = None
        if custom is not None:
            way = rng.choice(['class', 'instance'])
            if base == 'StreamSource' and rng.random() < 0.6:
                way = 'init'
            if way == 'class':
                class Sub(type(src)):
                    buffer_reader_class = custom
                src.__class__ = Sub
            elif way == 'instance':
                src.buffer_reader_class = custom
            else:
                from stream2py import StreamSource
                StreamSource.__init__(src, reader_cls=custom)
        elif base == 'StreamSource' and rng.random() < 0.5:
            from stream2py import StreamSource
            StreamSource.__init__(src)
        due = custom or BufferReader
        ctx.describe(base=base, way=way, reader=due.__name__)
        shared = base == 'StreamSource' and rng.random() < 0.6
        stream = None
        if not shared:
            how = rng.random()
            if base == 'SourceReader' and how < 0.5:
                stream = src.stream_buffer(rng.choice([50, 100]))
            else:
                stream = StreamBuffer(src, maxlen=rng.choice([None, 100]))
            stream.start()
        elif rng.random() < 0.5:
            src.configure_buffer(maxlen=rng.choice([None, 100]))
        for _ in range(rng.choice([1, 3, 6])):
            kw = {}
            if rng.random() < 0.6:
                kw['read_size'] = rng.choice([1, 2, 3])
            if rng.random() < 0.4:
                kw['strict_n'] = rng.random() < 0.5
            if rng.random() < 0.4:
                kw['ignore_no_item_found'] = rng.random() < 0.7
            if not shared and rng.random() < 0.4:
                kw['peek'] = rng.random() < 0.5
            if not shared and issubclass(due, Reader) and rng.random() < 0.5:
                kw['extra'] = 7
            before = len(made)
            o = call(src.open_reader if shared else stream.mk_reader, **kw)
            ctx.check(o[0] == 'ret', 'reader not made', f'{kw}: {show(o)}')
            r = o[1]
            ctx.count('readers made')
            ctx.check(type(r) is due, 'class of the reader', f'{type(r)}, due {due} ({base}, {way})')
            if custom is not None:
                ctx.count('readers of custom classes')
                ctx.interesting(base, way, shared, due.__name__, tuple(sorted(kw.items())))
            if issubclass(due, Reader):
                ctx.check(made[before:] == [r], 'readers constructed', f'{len(made) - before}')
                ctx.check(r.extra == kw.get('extra', 0), 'option', 'extra')
            kw.pop('extra', None)
            for name, default in (('read_size', 1), ('peek', False), ('strict_n', False),
                                  ('ignore_no_item_found', False)):
                ctx.check(same(getattr(r, name), kw.get(name, default)), 'option',
                          f'{name}: {getattr(r, name)}, given {kw}')
            # and they act so
            m = ReaderModel(kw.get('read_size', 1), kw.get('peek', False),
                            kw.get('ignore_no_item_found', False), kw.get('strict_n', False))
            time.sleep(0.5 * n)
            keys = [key(x) for x in items]
            for op in ('read', 'next', 'read', 'tail', 'read'):
                want = m.want(keys, items, op, {})
                o = call(invoke, r, op, {})
                ctx.check(want.ok(o), 'query', f'{op} with {kw}: {show(o)}, due {want!r}')
                if want.moves:
                    m.cursor = want.cursor
                ctx.check(same(r.last_item, m.cursor and m.cursor[0]), 'cursor', f'{op} {kw}')
            if shared:
                if rng.random() < 0.5:
                    r.close()
        if not shared and issubclass(due, Reader):
            before = len(made)
            x = next(stream)
            ctx.check(same(x, items[0]), 'next(stream)', repr(x))
            ctx.check(len(made) == before + 1 and type(made[-1]) is due, 'class of the reader',
                      'of next(stream)')
            it = iter(stream)
            ctx.check(same(next(it), items[0]), 'iteration of the stream', '')
            ctx.check(len(made) == before + 2 and type(made[-1]) is due, 'class of the reader',
                      'of a for loop over the stream')
            ctx.check(made[-1].is_same_buffer(made[-2]), 'same buffer', '')
        if stream:
            stream.stop()
        time.sleep(2)

    ctx.run(s, main, allow=())


def info_of(name, src):
    src._info = lambda x: {'name': name, 'session': x.session}


def belongs(ctx, r, st, other, name, what):
    """r is a reader of st.stream as its own readers are, and none of the other stream's."""
    o = call(lambda: r.source_reader_info)
    ctx.check(o[0] == 'ret' and o[1].get('name') == name, 'info of an attached reader',
              f'{what}: {show(o)}, due the info of {name}')
    mine, foreign = st.stream.mk_reader(), other.stream.mk_reader()
    for a, b in ((r, mine), (mine, r)):
        ctx.check(call(a.is_same_buffer, b) == ('ret', True), 'identity', f'{what}: not its own')
    for a, b in ((r, foreign), (foreign, r)):
        ctx.check(call(a.is_same_buffer, b) == ('ret', False), 'identity', f'{what}: foreign')


def attach_concurrent(rng, ctx):
    s = ctx.sched(rng)
    seed = rng.getrandbits(60)

    def main(s):
        kind = rng.choice(['tuple', 'dict', 'rec', 'int', 'float', 'datetime', 'desc', 'str'])
        n = rng.choice([5, 12, 25])
        sts = [Stream(rng, ctx, s, n=n, kind=kind, maxlen=rng.choice([None, 3, 6, 100]))
               for _ in range(2)]
        if kind in ('int', 'float', 'datetime', 'desc', 'str'):
            # equal items would hide a mix-up: the second stream has every second key
            keep = set(range(0, n, 2))
            b = sts[1]
            b.items = [x for i, x in enumerate(b.items) if i in keep]
            b.src.script = [a for a in b.src.script if a[0] != 'item' or any(
                a[1] is x or a[1] == x for x in b.items)]
            b.n = len(b.items)
        names = ['A', 'B']
        for st, name in zip(sts, names):
            info_of(name, st.src)
            st.stream.start()
        rds = []
        for w in range(rng.choice([1, 2, 3])):
            i = rng.randrange(2)
            kw = {}
            if rng.random() < 0.3:
                kw['read_size'] = 2
            if rng.random() < 0.7:
                kw['ignore_no_item_found'] = True
            rds.append([i, sts[i].h.reader(sts[i].stream, f'r{w}', **kw)])
        naps = rng.choice([(0, 0.002), (0, 0.03), (0.01, 0.2)])
        stopped = [False, False]
        stopping = [False, False]

        def drive(rg, rec):
            for _ in range(rg.choice([4, 8, 14])):
                i, rd = rec
                if rg.random() < 0.35:
                    j = rg.choice([0, 1, 1 - i])
                    o = call(sts[j].stream.attach_reader, rd[0])
                    ctx.check(o[0] == 'ret', 'attach failed', show(o))
                    rec[0] = j
                    ctx.count('attached')
                    cur = rd[1].cursor
                    ctx.check(same(rd[0].last_item, cur and cur[0])
                              and same(rd[0].last_key, cur and cur[1]), 'cursor not kept',
                              f'{rd[0].last_item!r} {rd[0].last_key!r}, had {cur!r}')
                    if cur is not None:
                        ctx.count('attached with a cursor')
                        ctx.interesting(s.sig, rd[2], j)
                    if stopped[j]:
                        ctx.count('attached to a stopped stream')
                    belongs(ctx, rd[0], sts[j], sts[1 - j], names[j], rd[2])
                i = rec[0]
                st = sts[i]
                for _ in range(rg.choice([1, 2, 4])):
                    op = rg.choice(['read', 'read', 'read', 'tail', 'head', 'range'])
                    kw = query_args(rg, op, sts[0].items, st.key)
                    ctx.count('queries after attaching')
                    if op == 'read':
                        ctx.count('forward reads after attaching')
                    st.h.do(rd, op, kw)
                was = stopped[i]
                o = call(lambda: rd[0].is_stopped)
                ctx.check(o == ('ret', True) if was else o in (('ret', False), ('ret', stopping[i])),
                          'running state', f'{show(o)}, stream stopped: {was}')
                time.sleep(rg.choice(naps))

        ts = [threading.Thread(target=drive, args=(random.Random(f'{seed}:{k}'), rec))
              for k, rec in enumerate(rds[1:])]
        for t in ts:
            t.start()
        first = random.Random(f'{seed}:m')
        drive(first, rds[0])
        if rng.random() < 0.6:
            i = rng.randrange(2)
            stopping[i] = True
            sts[i].stream.stop()
            stopped[i] = True
            drive(first, rds[0])
        for t in ts:
            t.join()
        stopping[:] = [True, True]
        for st in sts:
            st.stream.stop()
        stopped[:] = [True, True]
        time.sleep(2)
        for rec in rds:
            drive(first, rec)
        for st in sts:
            st.h.check()

    ctx.run(s, main, allow=())


def attach_sessions(rng, ctx):
    """Readers of ended sessions attached to new ones, of the same and of another stream."""
    from stream2py import StreamBuffer

    s = ctx.sched(random.Random(rng.getrandbits(60)), seq=True)

    def main(s):
        kind = rng.choice(['tuple', 'dict', 'rec', 'lists'])
        mk, key = KINDS[kind]
        n = rng.choice([2, 5, 9])
        step = rng.choice([0, 3, 100])
        log = []

        class St:
            pass

        sts = []
        for name in 'AB':
            st = St()
            st.name, st.items = name, []

            def script(session, st=st):
                st.items = [mk(i + step * session) for i in range(n)]
                return [('item', x) for x in st.items]

            st.src = mk_src(rng, s, key, by_session=script, pause=0.05)
            info_of(name, st.src)
            st.maxlen = rng.choice([None, 2, 4, 100])
            st.stream = StreamBuffer(st.src, maxlen=st.maxlen)
            st.windows = {}
            sts.append(st)
        readers = []  # [reader, model, stream, session]

        def restart(st):
            st.stream.start()
            time.sleep(0.5)  # everything is read
            st.windows[st.src.session] = st.items[-st.maxlen:] if st.maxlen else list(st.items)

        for st in sts:
            restart(st)
        for _ in range(rng.choice([10, 20, 40])):
            x = rng.random()
            st = rng.choice(sts)
            if x < 0.1:
                restart(st)
            elif x < 0.2:
                st.stream.stop()
                time.sleep(0.3)
            elif x < 0.35 or not readers:
                kw = {'read_size': rng.choice([1, 1, 2])}
                readers.append([st.stream.mk_reader(**kw), ReaderModel(kw['read_size']), st,
                                st.src.session])
            elif x < 0.6:
                rec = rng.choice(readers)
                r, m, old, k = rec
                o = call(st.stream.attach_reader, r)
                ctx.check(o[0] == 'ret', 'attach failed', show(o))
                rec[2], rec[3] = st, st.src.session
                ctx.count('attached')
                if m.cursor is not None:
                    ctx.count('attached with a cursor')
                    ctx.interesting(kind, len(log), k, rec[3], old is st, n, step)
                if not st.stream.is_running:
                    ctx.count('attached to a stopped stream')
                if old is st and k < rec[3]:
                    ctx.count('attached to a new session')
            else:
                rec = rng.choice(readers)
                r, m, st, k = rec
                items = st.windows[k]
                keys = [key(i) for i in items]
                op = rng.choice(['read', 'read', 'next', 'tail', 'head', 'range'])
                kw = query_args(rng, op, [mk(i) for i in range(0, n + 3 * step + 1)], key)
                want = m.want(keys, items, op, kw)
                o = call(invoke, r, op, kw)
                log.append((st.name, k, op, kw))
                ctx.count('queries after attaching')
                if op in ('read', 'next'):
                    ctx.count('forward reads after attaching')
                over = k != st.src.session or not st.stream.is_running
                if op == 'next' and over and want.ok(('ret', None)):
                    good = o[0] == 'exc' and isinstance(o[1], StopIteration)
                else:
                    good = want.ok(o)
                ctx.check(good, 'query of an attached reader',
                          f'{op} {kw} of stream {st.name} session {k}: {show(o)}, due {want!r}')
                if want.moves and o[0] == 'ret':
                    m.cursor = want.cursor
                ctx.check(same(r.last_item, m.cursor and m.cursor[0]), 'cursor', f'{op} {kw}')
                ctx.check(r.is_stopped == over, 'running state', f'{r.is_stopped}, due {over}')
                ctx.check(r.source_reader_info == {'name': st.name, 'session': k},
                          'info of an attached reader', f'{r.source_reader_info}')
                for r2, m2, st2, k2 in readers[:6]:
                    ctx.check(r.is_same_buffer(r2) == (st is st2 and k == k2), 'identity',
                              f'{st.name}{k} {st2.name}{k2}')
        for st in sts:
            st.stream.stop()
        time.sleep(2)

    ctx.run(s, main, allow=())
