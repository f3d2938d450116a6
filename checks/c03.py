"""C03: reader queries are atomic snapshots under a concurrent producer."""
import random
import threading
import time

from lib.conc import Stream, pauses, query_args
from lib.harness import weighted

ID = 'C03'
TECHNIQUE = 'runtime monitoring: controlled schedules, offline linearizability check of histories'
RULE = (
    'a real stream whose source thread appends (and evicts, or waits for explicit drops) while '
    '1-4 threads issue random queries on their readers, preempted at random lines and lock '
    'operations of the code under test; each recorded history is checked for one explaining '
    'buffer state per query, non-decreasing in real time over all readers; non-trivial: at '
    'least one query overlapped an append'
)
ASSUMPTIONS = ['each reader is driven by one thread at a time', 'one thread drops']
QUICK = 4000
THOROUGH = 60000
MIN = {'queries': 5000, 'queries overlapping an append': 500, 'drops': 50, 'drops of many': 100,
       'queries of hundreds of items': 40}

OPS = dict(read=4, next=1.5, range=4, tail=2.5, head=1.5)


def case(rng, ctx):
    s = ctx.sched(rng)
    seed = rng.getrandbits(60)
    manual = rng.random() < 0.3
    many = manual and rng.random() < 0.4  # drops of many items at a time
    fav = rng.choice([None, None, 'read', 'next', 'range', 'tail', 'head'])
    long = ctx.case_id % 80 == 11  # a window of hundreds of items
    if long:
        manual = many = False
        fav = rng.choice(['range', 'range', 'read'])

    def main(s):
        st = Stream(rng, ctx, s, n=420 if long else rng.choice([6, 15, 30]) * (3 if many else 1),
                    maxlen=rng.choice([320, 335] if long else
                                      [None, 1, 2, 3, 4, 5, 8] if not many else [12, 25]),
                    auto_drop=not manual,
                    pause=rng.choice([0, 0.001, 0.02]), none_p=rng.choice([0, 0, 0.2]),
                    delay_p=1 if long else None)
        if manual and st.maxlen is None:
            st.h.maxlen = None
        h = st.h
        stop = []

        def worker(w):
            rg = random.Random(f'{seed}:{w}')
            naps = pauses(rg)
            rds = [h.reader(st.stream, f'w{w}r{k}', **opts(rg)) for k in range(rg.randint(1, 2))]
            for _ in range(rg.randint(3, 14) * (2 if many else 1)):
                op = fav if fav and rg.random() < 0.6 else weighted(rg, OPS.items())
                kw = query_args(rg, op, st.items, st.key)
                if long and op == 'read':
                    kw['n'] = rg.choice([300, 400])
                    kw['peek'] = True
                elif long and op == 'range':
                    kw.update(start=st.key(st.items[0]), stop=st.key(st.items[-1]))
                    kw.pop('step', None)
                h.do(rg.choice(rds), op, kw)
                if long and kw.get('peek') and h.queries[-1].out[0] == 'ret':
                    ctx.count('queries of hundreds of items')
                nap = rg.choice(naps)
                if nap:
                    time.sleep(nap)

        def dropper():
            rg = random.Random(f'{seed}:d')
            while not stop:
                held = st.held()
                if held > 0 and rg.random() < 0.7:
                    n = rg.randint(1, held) if not many else held - rg.randint(0, 2)
                    n = max(n, 1)
                    ctx.count('drops of many', n > 6)
                    h.drop(st.stream, n)
                time.sleep(rg.choice([0.001, 0.01, 0.05]))

        st.stream.start()
        while long and st.src.pos < 330:
            time.sleep(0.002)
        ts = [threading.Thread(target=worker, args=(w,)) for w in range(rng.randint(1, 4))]
        if manual:
            d = threading.Thread(target=dropper)
            d.start()
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if manual:
            stop.append(1)
            d.join()
        before = ctx.counters.get('queries overlapping an append', 0)
        h.check()
        if ctx.counters.get('queries overlapping an append', 0) > before:
            ctx.interesting(s.sig)
        ctx.describe(queries=[repr(q) for q in h.queries[:6]])
        st.stream.stop()

    ctx.run(s, main)


def opts(rg):
    kw = {}
    if rg.random() < 0.4:
        kw['read_size'] = rg.choice([1, 2, 3])
    if rg.random() < 0.6:
        kw['ignore_no_item_found'] = rg.random() < 0.8
    if rg.random() < 0.15:
        kw['peek'] = True
    if rg.random() < 0.2:
        kw['strict_n'] = True
    return kw
