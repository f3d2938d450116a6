"""C18: a stream source is open exactly while it has open readers."""
import random
import threading
import time

from lib.harness import SrcError, call, same, show
from lib.sources import KINDS, Src

ID = 'C18'
TECHNIQUE = 'runtime monitoring: reader-count automaton over source and reader events under controlled schedules'
RULE = (
    'StreamSource subclasses driven by 1-4 threads opening readers (plain, with options, as '
    'contexts), reading and closing them once, repeatedly or from several threads at a time (sometimes dozens open together), with '
    'opens of the source or of a reader that fail, threads that cannot be started, and sources that end by themselves; the source boundary is checked against '
    'the intervals in which readers were certainly open; non-trivial: the source was opened again '
    'or two readers were open at once'
)
ASSUMPTIONS = ['the source is only used through its readers']
QUICK = 2500
THOROUGH = 60000
MIN = {'readers opened': 5000, 'readers closed': 5000, 'repeated closes': 1000,
       'sessions': 3000, 'reopened': 1000, 'failed opens': 200, 'readers open together': 1000,
       'items read': 5000,
       'readers that failed to open': 100, 'opens without a thread': 60, 'readers in a crowd': 250}


def make_class(init, reader_cls=None):
    from stream2py import StreamSource

    class Sub(Src, StreamSource):
        sleep_time_on_read_none_s = None

        def __init__(self, *a, **k):
            if init:
                StreamSource.__init__(self, **({} if reader_cls is None else dict(reader_cls=reader_cls)))
            Src.__init__(self, *a, **k)

    Sub.__abstractmethods__ = frozenset()
    return Sub


class Held:
    """One reader as its clients know it."""

    __slots__ = ('r', 'asked', 'got', 'close', 'session', 'kw', 'closed', 'last', 'lock')

    def __repr__(self):
        return (f'reader(session {self.session}, opened {self.asked}..{self.got}, '
                f'close {self.close})')


def crowd(rng, ctx):
    """Many readers open at once."""
    s = ctx.sched(rng, seq=True)

    def main(s):
        mk, key = KINDS['tuple']
        src = make_class(rng.random() < 0.5)(s, key, by_session=lambda k: [
            ('item', (i, k), 0) for i in range(3)], pause=0.3)
        readers = []
        for session in (1, 2):
            for _ in range(rng.choice([5, 9, 17, 40, 130])):
                o = call(src.open_reader)
                ctx.check(o[0] == 'ret', 'open_reader failed', show(o))
                readers.append(o[1])
                ctx.count('readers in a crowd')
            rng.shuffle(readers)
            time.sleep(1)
            while readers:
                ctx.check(src.is_open and src.opens == session, 'closed while readers are open',
                          f'{len(readers)} left; {src.opens} opens')
                r = readers.pop()
                if rng.random() < 0.5:
                    o = call(r.read)
                    ctx.check(same(o, ('ret', (0, session))), 'items', show(o))
                ctx.check(not r.is_stopped, 'an open reader was stopped', f'{len(readers)} more')
                r.close()
                if rng.random() < 0.3:
                    time.sleep(0.4)
            time.sleep(3)
            ctx.check(not src.is_open, 'source open without readers', f'session {session}')
        ctx.interesting('crowd', s.sig)

    ctx.run(s, main)


def case(rng, ctx):
    if ctx.case_id % 100 == 13:
        return crowd(rng, ctx)
    alone = rng.random() < 0.4
    s = ctx.sched(rng)
    seed = rng.getrandbits(60)

    def main(s):
        mk, key = KINDS['tuple']
        n = rng.choice([0, 3, 12])
        times = rng.choice([(0,), (0, 0.003), (0, 0.3), (0, 0, 1.4)])
        ending = rng.choice([0, 0, 0, 0.3])
        fails = rng.choice([0, 0, 0.3])
        finite = {}

        def script(session):
            rg = random.Random(f'{seed}:{session}')
            out = []
            for i in range(n):
                out.append(('item', (i, session), rg.choice(times)))
            if rg.random() < ending:
                out.append(('raise', SrcError('ended')))
                finite[session] = True
            return out

        from stream2py import BufferReader

        well = [False]
        refuse = []  # a reader whose turn it is fails to open

        class OwnReader(BufferReader):
            opened = 0

            def open(self):
                s.point()
                if not self.opened and refuse and refuse.pop():
                    raise SrcError('reader open')
                self.opened += 1
                return self

        init = rng.random() < 0.6
        own = OwnReader if init and rng.random() < 0.6 else None
        cls = make_class(init, own)
        src = cls(s, key, by_session=script, pause=rng.choice([0.01, 0.3, 2]))
        for what in ('open', 'close'):
            src.slow[what] = rng.choice(times)
        if rng.random() < 0.5:
            o = call(src.configure_buffer, maxlen=rng.choice([None, 100]))
            ctx.check(o == ('ret', src), 'configure_buffer', show(o))
        elif rng.random() < 0.5:
            src.configure_buffer(maxlen=50, sleep_time_on_read_none_s=0.02)
        n_threads = 1 if alone else rng.choice([2, 3, 4])
        ctx.describe(threads=n_threads, items=n, times=times, ending=ending, fails=fails,
                     slow=dict(src.slow), init=cls, mode=s.mode, tick=s.tick)
        every = []
        naps = rng.choice([(0, 0.003), (0.01, 0.3), (0.5, 1.2)])
        failed_opens = []
        naming = rng.random() < 0.5

        def open_one(rg):
            h = Held()
            h.kw = {}
            if rg.random() < 0.4:
                h.kw['read_size'] = rg.choice([1, 2])
            if rg.random() < 0.5:
                h.kw['ignore_no_item_found'] = True
            may_fail = rg.random() < fails
            exc = SrcError('open')
            if may_fail:
                src.faults.setdefault('open', []).append(exc)
            if own and rg.random() < fails:
                refuse.append(True)
            me = s.current
            if rg.random() < fails / 3 and not well[0]:
                s.no_thread.add(me)
            h.asked, h.close, h.closed, h.last = s.tick_seq(), None, 0, -1
            o = call(src.open_reader, **h.kw)
            s.no_thread.discard(me)
            h.got = s.tick_seq()
            if o[0] == 'exc':
                scarce = 'thread' in str(o[1]) and fails
                ctx.count('opens without a thread', bool(scarce))
                ctx.check(isinstance(o[1], SrcError) or scarce, 'open_reader failed', show(o))
                failed_opens.append(h.got)
                ctx.count('failed opens')
                ctx.count('readers that failed to open', str(o[1]) == 'reader open')
                return None
            h.r = o[1]
            ctx.check(type(h.r) is (own or BufferReader), 'reader class', repr(type(h.r)))
            ctx.check(own is None or h.r.opened == 1, 'reader not opened', '')
            ctx.count('readers opened')
            h.session = h.r.source_reader_info['session']
            every.append(h)
            if sum(x.closed == 0 for x in every) > 1:
                ctx.count('readers open together')
            return h

        def close(h, how):
            if h.close is None:
                h.close = s.tick_seq()
            else:
                ctx.count('repeated closes')
            o = call(h.r.close if how == 0 else h.r.exit if how == 1
                     else lambda: h.r.__exit__(None, None, None))
            ctx.check(o == ('ret', None), 'close failed', show(o))
            h.closed = h.closed or s.tick_seq()
            ctx.count('readers closed')

        def use(h, rg):
            surely_open = h.close is None
            o = call(h.r.read)
            if o[0] == 'ret' and o[1] is not None:
                xs = o[1] if isinstance(o[1], list) else [o[1]]
                for i, sess in xs:
                    ctx.count('items read')
                    ctx.check(sess == h.session, 'item of another session',
                              f'{xs} read by {h!r}')
                    ctx.check(i == h.last + 1, 'order', f'{xs} after {h.last} by {h!r}')
                    h.last = i
            elif o[0] == 'exc':
                ctx.check(isinstance(o[1], ValueError), 'read failed', show(o))
            stopped = h.r.is_stopped
            if surely_open and h.close is None and stopped:
                ctx.check(finite.get(h.session), 'an open reader was stopped', f'{h!r}')

        def drive(rg, n_ops):
            mine = []
            for _ in range(n_ops):
                x = rg.random()
                pool = every if rg.random() < 0.4 else mine
                if x < 0.3:
                    h = open_one(rg)
                    if h:
                        mine.append(h)
                elif x < 0.42:
                    h = open_one(rg)
                    if h:
                        try:
                            with h.r as r:
                                ctx.check(r is h.r, 'context of another reader', repr(h))
                                use(h, rg)
                                time.sleep(rg.choice(naps))
                                if rg.random() < 0.2:
                                    close(h, 0)
                                if h.close is None:
                                    h.close = s.tick_seq()
                                if rg.random() < 0.3:
                                    raise KeyError('body')
                        except KeyError:
                            pass
                        h.closed = h.closed or s.tick_seq()
                        ctx.count('readers closed')
                elif x < 0.62 and pool:
                    h = rg.choice(pool)
                    for _ in range(rg.choice([1, 1, 2])):
                        close(h, rg.randrange(3))
                elif mine:  # a reader is read by one thread at a time
                    use(rg.choice(mine), rg)
                if rg.random() < 0.6:
                    time.sleep(rg.choice(naps))
            if rg.random() < 0.7:
                for h in mine:
                    if h.close is None:
                        close(h, 0)

        n_ops = rng.choice([4, 10])
        for round_ in range(rng.choice([1, 1, 2])):
            ts = [threading.Thread(target=drive, args=(random.Random(f'{seed}:{round_}:{i}'),
                                                       n_ops)) for i in range(n_threads - 1)]
            for t in ts:
                t.start()
            drive(random.Random(f'{seed}:{round_}:m'), n_ops)
            for t in ts:
                t.join()
            for h in list(every):
                if h.close is None or rng.random() < 0.3:
                    close(h, 0)
            src.faults.clear()
            del refuse[:]
            time.sleep(8)
            ctx.check(not src.is_open, 'source open without readers', f'{src.log[-8:]}')
            # and it works again
            well[0] = True
            before = src.opens
            h = open_one(random.Random(1))
            ctx.check(h is not None, 'open_reader failed', 'with a working source')
            ctx.check(src.opens == before + 1 and h.session == src.session,
                      'not opened for a new reader',
                      f'{before} opens before, {src.opens} after; {h!r}')
            ctx.count('reopened')
            if n:
                for _ in range(400):
                    use(h, rng)
                    if h.last == n - 1:
                        break
                    time.sleep(0.1)
                ctx.check(h.last == n - 1, 'new session not delivered', f'{h.last} of {n}')
            close(h, 0)
            time.sleep(5)
            ctx.check(not src.is_open, 'source open without readers', f'{src.log[-8:]}')
        ctx.count('sessions', src.opens)
        verify(ctx, src, every, finite)
        if src.opens > 1:
            ctx.interesting(s.sig, src.opens, len(every))

    ctx.run(s, main, allow=(SrcError,))


def verify(ctx, src, every, finite):
    log = [e for e in src.log if not e.what.startswith('info')]
    over = [p for p in src.overlaps if 'info' not in p]
    ctx.check(not over, 'source calls overlap', str(over[:5]))
    session, state, tries = 0, 'closed', 0
    for e in log:
        if e.what == 'open>':
            ctx.check(state == 'closed', 'opened while open', f'{e}')
            state = 'opening'
            held = [h for h in every if h.got < e.seq and (h.close is None or e.seq < h.close)]
            ctx.check(not held, 'opened while readers are open', f'{e}: {held[:4]}')
        elif e.what == 'open!':
            state = 'failing'
        elif e.what == 'open<':
            session += 1
            state = 'open'
        elif e.what == 'close>':
            ctx.check(state == 'open', 'closed while not open', f'{e}')
            state = 'closing'
            if not finite.get(session):
                held = [h for h in every if h.got < e.seq and (h.close is None or e.seq < h.close)
                        and h.session == session]
                ctx.check(not held, 'closed while readers are open', f'{e}: {held[:4]}')
        elif e.what == 'close<':
            state = 'closed'
        elif e.what == 'read>':
            ctx.check(state in ('open',), 'read while not open', f'{e}')
        if state == 'failing':
            state = 'closed'


_ = same
