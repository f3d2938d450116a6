"""C01: every consumer gets every retained item once, in source order."""
import random
import threading
import time

from lib.conc import Stream, pauses
from lib.consume import STYLES, Consumer, check_consumer
from lib.harness import SrcError, call, same, show
from lib.seq import Rig

ID = 'C01'
TECHNIQUE = 'runtime monitoring: controlled schedules, order/once/completeness oracle on histories'
RULE = (
    'a real stream and 1-4 consumers (sometimes a crowd of dozens) reading forward to its end in every style (for loop, '
    'next, blocking, polling single and chunked reads, iterating the stream) with random speeds, '
    'window bounds, item types and explicit drops, preempted at random lines and lock '
    'operations; every received sequence is checked for order, duplicates and completeness, and '
    'every skip against the window states possible at that read; non-trivial: a consumer '
    'received at least 3 items while another thread ran'
)
ASSUMPTIONS = ['each reader is driven by one thread at a time']
QUICK = 2500
THOROUGH = 60000
MIN = {'long runs': 8, 'consumers in a crowd': 400, 'items delivered': 10000, 'queries overlapping an append': 500, 'skips justified': 100}


def long_run(rng, ctx):
    """Readers far behind a source of thousands of items."""
    s = ctx.sched(rng, seq=True, tick=0)

    def main(s):
        rig = Rig(rng, ctx, s, maxlen=rng.choice([None, None, 7000]),
                  kind=rng.choice(['int', 'str', 'rec', 'tuple', 'float']))
        rig.start()
        rig.feed(rng.choice([1000, 4400, 6500]))
        sizes = [1, 1, 2, 7, 64, 1000, 5000]
        rs = [(rig.stream.mk_reader(read_size=n, ignore_no_item_found=True), n, [])
              for n in rng.sample(sizes, 4)]
        its = [None] * len(rs)
        more = rng.choice([0, 300, 2000])
        late = False
        for step in range(30):
            for i, (r, n, got) in enumerate(rs):
                for _ in range(max(1, 1200 // n)):
                    way = rng.choice(['read', 'next', 'blocking', 'for'])
                    if len(got) == rig.made and way in ('blocking', 'for'):
                        way = 'read'
                    if way == 'for':
                        if its[i] is None:
                            its[i] = iter(r)
                        o = call(next, its[i])
                    else:
                        o = call({'read': r.read, 'next': r.__next__,
                                  'blocking': lambda: r.read(blocking=True)}[way])
                    ctx.check(o[0] == 'ret', 'reading failed', f'{way}({n}): {show(o)}')
                    if o[1] is None:
                        break
                    new = o[1] if n > 1 else [o[1]]
                    ctx.check(same(new, rig.items[len(got):len(got) + n]), 'wrong items',
                              f'{way} of {n} after {len(got)} of {rig.made}: {new[:3]!r}..')
                    got += new
            if not late and rng.random() < 0.3:
                late = True
                if more and (rig.maxlen is None or rig.made + more <= rig.maxlen):
                    rig.feed(more)
        for r, n, got in rs:
            while len(got) < rig.made:
                o = call(r.read, 900)
                ctx.check(o[0] == 'ret' and o[1], 'items lost',
                          f'{len(got)} of {rig.made}: {show(o)}')
                got += o[1]
            ctx.check(same(got, rig.items), 'wrong items', f'{len(got)} of {rig.made}, size {n}')
            ctx.check(r.read(n=1) is None, 'too many items', '')
        ctx.count('long runs')
        ctx.interesting('long', rig.kind, rig.made, [n for _, n, _ in rs])
        rig.stream.stop()

    ctx.run(s, main)


def crowd(rng, ctx):
    """Many consumers of one stream, each at its own place."""
    s = ctx.sched(rng, seq=True, tick=0)

    def main(s):
        rig = Rig(rng, ctx, s, maxlen=None)
        rig.start()
        rig.feed(rng.randint(1, 9))
        cons = []
        for step in range(rng.choice([10, 20, 40, 130])):
            n = rng.choice([1, 1, 2, 5])
            cons.append((rig.stream.mk_reader(ignore_no_item_found=True), n, []))
            if rng.random() < 0.3:
                rig.feed(rng.randint(1, 3))
            for r, n, got in rng.sample(cons, min(3, len(cons))):
                forward(ctx, rig, r, n, got)
        for r, n, got in cons:
            while len(got) < rig.made:
                forward(ctx, rig, r, n, got)
            ctx.check(r.read(n) is None, 'too many items', '')
        ctx.count('consumers in a crowd', len(cons))
        ctx.interesting('crowd', rig.kind, rig.made, len(cons))
        rig.stream.stop()

    ctx.run(s, main)


def forward(ctx, rig, r, n, got):
    o = call(r.read, n)
    new = o[1] if n > 1 and o[0] == 'ret' and o[1] is not None else [o[1]]
    due = rig.items[len(got):len(got) + n] or [None]
    ctx.check(o[0] == 'ret' and same(new, due), 'wrong items',
              f'read({n}) after {len(got)} of {rig.made}: {show(o)}')
    if new != [None]:
        got += new


def case(rng, ctx):
    if ctx.case_id % 250 == 21:
        return long_run(rng, ctx)
    if ctx.case_id % 100 == 13:
        return crowd(rng, ctx)
    s = ctx.sched(rng)
    seed = rng.getrandbits(60)
    manual = rng.random() < 0.15

    def main(s):
        ends = rng.choice([None, None, SrcError('source ended'), StopIteration('end')])
        st = Stream(rng, ctx, s, n=rng.choice([1, 4, 10, 25, 40]),
                    maxlen=rng.choice([None, 1, 2, 3, 5, 8, 100]), auto_drop=not manual,
                    ends=ends)
        h = st.h
        cons = []
        for w in range(rng.randint(1, 4)):
            rg = random.Random(f'{seed}:{w}')
            style = rg.choice(STYLES)
            cons.append(Consumer(h, st.stream, style, rg, pauses(rg), f'c{w}',
                                 size=rg.choice([1, 1, 2, 3, 7]),
                                 lazy=rg.choice([0, 0, 0, 0.01, 0.2])))
        st.stream.start()
        ts = [threading.Thread(target=c.run) for c in cons]
        for t in ts:
            t.start()
        dropped = 0
        if manual:
            rg = random.Random(f'{seed}:d')
            while True:
                held = st.held()
                if dropped + held >= st.n or not st.stream.is_running:
                    break
                if held > 0 and (rg.random() < 0.5 or held == st.maxlen):
                    n = rg.randint(1, held)
                    h.drop(st.stream, n)
                    dropped += n
                time.sleep(rg.choice([0.005, 0.05]))
        st.wait_all_held(dropped)
        if rng.random() < 0.5:
            time.sleep(rng.choice([0.001, 0.1, 1]))
        st.stream.stop()
        for t in ts:
            t.join()
        b = h.check()
        n = len(b.items)
        ctx.check(n == st.n, 'source starved', f'{n} of {st.n} items were read')
        for c in cons:
            ctx.check(c.ended, 'consumer did not end', c.who)
            keeps = (st.maxlen is None or st.maxlen >= n) and not manual
            early = c.lazy == 0 or (st.maxlen or n) >= n
            seq = check_consumer(ctx, c, st.items, st.maxlen, 0 if manual else n, keeps)
            if keeps and early:
                ctx.check(len(seq) == n, 'skipped items', f'{c.who} received {seq} of {n}')
            ctx.count('skips justified', sum(y - x - 1 for x, y in zip(seq, seq[1:])))
            if len(seq) >= 3 and s.switches > 5:
                ctx.interesting(s.sig, c.who)
        ctx.describe(styles=[c.style for c in cons], got=[len(c.got) for c in cons],
                     dropped=dropped)

    # a StopIteration raised in a source thread ends it as any other exception
    ctx.run(s, main, allow=(SrcError, StopIteration))
