"""C11: a blocking read waits for data and never misses it."""
import random
import threading
import time

from lib.conc import Bounds, Stream
from lib.consume import check_consumer
from lib.harness import SrcError, call, show

ID = 'C11'
TECHNIQUE = 'runtime monitoring: controlled schedules under virtual time, wait/return oracle'
RULE = (
    'blocking reads (chunked, strict, peeking, with changed poll intervals) issued before, while '
    'and after items arrive and the stream stops, under schedules where virtual time passes only '
    'in waits; each return value is checked against the window states, each return time against '
    'the moment data or the stop was certainly there plus one poll interval, each None against '
    'the items in the buffer before the stop; non-trivial: some blocking read really waited'
)
ASSUMPTIONS = ['peeking blocking reads are not used to drain']
QUICK = 3000
THOROUGH = 80000
MIN = {'blocking reads': 8000, 'waited': 800, 'None checked': 1000, 'refused': 50,
       'readers with an interval of 0': 100}
SLACK = 0.02


def case(rng, ctx):
    # time passes only in waits, so lateness is the code's own waiting
    busy = ctx.case_id % 13 == 5  # readers with an interval of 0
    s = ctx.sched(rng, tick=0, oversleep=2e-3 if busy else 1e-4)
    seed = rng.getrandbits(60)

    def main(s):
        how = rng.choice(['stop', 'stop', 'fail', 'fail at once'])
        ends = SrcError('source ended') if how != 'stop' else None
        st = Stream(rng, ctx, s, n=rng.choice([1, 3, 6, 12]), ends=ends,
                    maxlen=rng.choice([None, None, 1, 2, 4, 100]),
                    pause=rng.choice([0.01, 0.3]), none_p=rng.choice([0, 0.3, 0.6]))
        h = st.h
        stop_call, stop_ret = [], []
        cons = []

        def consumer(w):
            rg = random.Random(f'{seed}:{w}')
            size = rg.choice([1, 1, 1, 2, 3])
            strict = size > 1 and rg.random() < 0.3
            rd = h.reader(st.stream, f'c{w}', read_size=size, strict_n=strict,
                          ignore_no_item_found=rg.random() < 0.5)
            r, m, who = rd
            interval = 0.1
            if busy or rg.random() < 0.6:
                interval = rg.choice([0.001, 0.01, 0.5, 1.0, 2.5])
                if busy:
                    interval = 0
                    ctx.count('readers with an interval of 0')
                r.set_sleep_time_on_iter_none(interval)
            c = Got(who, size)
            cons.append(c)
            if rg.random() < 0.3:
                time.sleep(rg.choice([0.01, 0.5, 3]))
            while True:
                kw = dict(blocking=True)
                if rg.random() < 0.2:
                    kw['n'] = rg.choice([1, 2, 4])
                if rg.random() < 0.15:
                    kw['peek'] = True
                if rg.random() < 0.2:
                    kw['ignore_no_item_found'] = rg.random() < 0.5
                if rg.random() < 0.1:
                    kw['strict_n'] = rg.random() < 0.5
                n = kw.get('n', size)
                t0 = s.now
                seq0 = s.tick_seq()
                sure_stop = s.now if (stop_ret or r.is_stopped) else None
                want = dict(kw)
                del want['blocking']
                want['ignore_no_item_found'] = True
                out = h.do(rd, 'read', want, fn=lambda: r.read(**kw))
                t1 = s.now
                ctx.count('blocking reads')
                c.calls.append((seq0, t0, s.tick_seq(), t1, interval, out[0] == 'ret'
                                and out[1] is None, m.cursor, kw.get('peek', False)))
                if t1 - t0 > interval / 2:
                    ctx.count('waited')
                    ctx.interesting(s.sig)
                if out[0] == 'exc':
                    ctx.check(isinstance(out[1], ValueError)
                              and (kw.get('strict_n', strict) and n > 1),
                              'blocking read raised', f'{who} {kw}: {show(out)}')
                    ctx.count('refused')
                    if r.is_stopped:
                        c.rest(ctx, r, n)
                        return
                    time.sleep(0.05)
                    continue
                if out[1] is None:
                    ctx.count('None checked')
                    for i in range(len(h.queries) - 1, -1, -1):
                        if h.queries[i].who == who:
                            del h.queries[i]
                            break
                    failed = any(e.what == 'read!' for e in st.src.log)
                    ctx.check(stop_call or failed, 'blocking read gave up while running', who)
                    c.ended = True
                    # for ever after: None, at once
                    t2 = s.now
                    o = call(r.read, blocking=True)
                    ctx.check(o == ('ret', None) or stop_call and not failed,
                              'blocking read after the end', show(o))
                    ctx.check(s.now - t2 <= interval + SLACK, 'waits on a stopped stream',
                              f'{s.now - t2} s')
                    if o[0] == 'ret' and o[1] is not None:
                        c.take(o[1], size)
                    return
                if sure_stop is not None:
                    ctx.check(t1 - t0 <= SLACK, 'waited although the stream had stopped',
                              f'{who} waited {t1 - t0} s')
                if not kw.get('peek', False):
                    c.take(out[1], n)
                if rg.random() < 0.2:
                    time.sleep(rg.choice([0.005, 0.2]))

        ts = [threading.Thread(target=consumer, args=(w,)) for w in range(rng.randint(1, 3))]
        if how == 'fail at once':
            st.src.script = [('raise', ends)]
            st.n = 0
        st.stream.start()
        for t in ts:
            t.start()
        if how == 'stop':
            end = rng.randint(0, st.n + 1)
            for _ in range(rng.choice([3, 30, 300])):
                if st.src.pos >= end:
                    break
                time.sleep(rng.choice([0.0005, 0.01]))
            if rng.random() < 0.3:
                time.sleep(rng.choice([0.1, 2.0]))
            stop_call.append((s.tick_seq(), s.now))
            st.stream.stop()
            stop_ret.append((s.tick_seq(), s.now))
        for t in ts:
            t.join()
        b = h.check()
        must = b.lo(stop_call[0][0]) if stop_call else len(b.items)
        when = appended_by(st.src.log)
        closed = [e.t for e in st.src.log if e.what == 'close>']
        for c in cons:
            keeps = st.maxlen is None or st.maxlen >= len(b.items)
            check_consumer(ctx, c, st.items, st.maxlen, must, keeps)
            promptness(ctx, c, st, when, stop_ret, closed, b)
        if not stop_call:
            st.stream.stop()

    ctx.run(s, main)


class Got:
    def __init__(self, who, size):
        self.who, self.size, self.style = who, size, 'blocking'
        self.got, self.calls, self.ended = [], [], False
        self.end_seq = None

    def take(self, v, n):
        self.got += v if n > 1 else [v]

    def rest(self, ctx, r, n):
        """A strict reader of a stopped stream: the remainder is there for an unstrict read."""
        while True:
            v = r.read(1, ignore_no_item_found=True)
            if v is None:
                break
            self.got.append(v)
        self.ended = True


def appended_by(log):
    """For each item, the virtual time by which it was certainly in the buffer."""
    out, waiting = [], 0
    for e in log:
        if e.what == 'read<' and e.val is not None:
            waiting += 1
        elif e.what in ('read>', 'close>'):
            out += [e.t] * waiting
            waiting = 0
    return out


def promptness(ctx, c, st, when, stop_ret, closed, b):
    keys = [st.key(x) for x in b.items]
    prev = None
    for seq0, t0, seq1, t1, interval, none, cursor, peek in c.calls:
        # the first item after the cursor this call started from
        before = prev
        prev = cursor
        k = 0
        if before is not None:
            while k < len(keys) and not keys[k] > before[1]:
                k += 1
        sure = []
        if k < len(when):
            sure.append(when[k])
        if stop_ret:
            sure.append(stop_ret[0][1])
        if closed:
            sure.append(closed[0])
        if sure:
            due = max(t0, min(sure)) + interval + SLACK
            ctx.count('return times checked')
            ctx.check(t1 <= due, 'returned too late',
                      f'{c.who} returned at {t1:.4f}, called at {t0:.4f}, due by {due:.4f} '
                      f'(interval {interval})')


_ = Bounds
