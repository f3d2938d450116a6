"""C05: readers of one stream are independent of each other."""
import threading

from lib.harness import weighted
from lib.seq import Rig, program, reader_options

ID = 'C05'
TECHNIQUE = 'runtime monitoring: model-based oracle per reader, controlled thread schedules'
RULE = (
    'three kinds of case: random programs interleaving operations of 2-5 readers, sometimes dozens (lists a query '
    'returned are mutated by the caller); 2-4 threads each driving its own readers on a window '
    'that does not change meanwhile, preempted at random lines of the code under test; readers '
    'created at random moments whose first forward read is checked. Every outcome and cursor '
    'of every reader is compared with a model of that reader alone; non-trivial: at least two '
    'readers returned data'
)
ASSUMPTIONS = ['each reader is driven by one thread at a time']
QUICK = 6000
THOROUGH = 80000
MIN = {'queries': 5000, 'context switches': 1000, 'first reads of new readers': 200,
       'readers in a crowd': 700}

WEIGHTS = dict(feed=3, read=4, next=2, next_method=1, cursor=2, drop=0.5, reader=1.2, range=3,
               tail=2, head=2)
QUERIES = dict(read=4, next=2, next_method=1, range=3, tail=2, head=2, cursor=1)


def threads_case(rng, ctx):
    s = ctx.sched(rng)

    def main(s):
        rig = Rig(rng, ctx, s, maxlen=rng.choice([None, 3, 5, 20]), pause=50.0)
        n = rng.randint(1, 12)
        new = [rig.mk(i) for i in range(n)]
        rig.made = n
        rig.src.push(*new)
        rig.queued += new
        rig.start()
        rig.settle()
        rig.shift()
        import random

        def worker(w):
            rg = random.Random(f'{seed}:{w}')
            mine = [rig.reader(**reader_options(rg)) for _ in range(rg.randint(1, 2))]
            mrig = Worker(rig, rg)
            for _ in range(rg.randint(2, 7)):
                op = weighted(rg, QUERIES.items())
                rd = rg.choice(mine)
                if op == 'cursor':
                    mrig.move_cursor(rd)
                else:
                    mrig.query(rd, op, mrig.random_args(op), mutate=rg.random() < 0.5)
            for rd in mine:
                rig.same_cursor(rd, 'everything')

        seed = rng.getrandbits(60)
        k = rng.randint(2, 4)
        ts = [threading.Thread(target=worker, args=(w,)) for w in range(k)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        rig.all_cursors('all threads ended')
        rig.check_contents('after all threads')
        ctx.interesting('threads', k, s.sig)
        rig.stream.stop()

    ctx.run(s, main)


class Worker(Rig):
    """The rig seen by one thread: own random choices, shared window."""

    def __init__(self, rig, rng):
        self.__dict__.update(rig.__dict__)
        self.rng = rng


def births_case(rng, ctx):
    """Readers created at any time start without a last item at the oldest item held."""
    s = ctx.sched(rng, seq=True)

    def main(s):
        rig = Rig(rng, ctx, s, auto_drop=rng.random() < 0.8)
        rig.start()
        rig.settle()
        for _ in range(rng.randint(2, 8)):
            if rng.random() < 0.7:
                rig.feed(rng.randint(1, 6))
            if not rig.auto_drop and rig.items and rng.random() < 0.4:
                rig.drop(rng.randint(1, len(rig.items)))
                rig.settle()
                rig.shift()
            for rd in rig.readers:
                if rng.random() < 0.4:
                    rig.query(rd, 'read', dict(ignore_no_item_found=True))
            rd = rig.reader(ignore_no_item_found=True, read_size=rng.choice([1, 1, 2, 5]))
            ctx.check(rd[0].last_item is None and rd[0].last_key is None, 'new reader has cursor')
            rig.query(rd, rng.choice(['read', 'next']), {})
            ctx.count('first reads of new readers')
            if rng.random() < 0.3:
                rig.query(rig.reader(), 'tail', dict(only_new_items=True,
                                                     ignore_no_item_found=True))
        rig.all_cursors('creating other readers')
        ctx.interesting('births', rig.kind, rig.maxlen, rig.made, len(rig.readers))
        rig.stream.stop()

    ctx.run(s, main)


def crowd_case(rng, ctx):
    """A stream with many readers."""
    s = ctx.sched(rng, seq=True)

    def main(s):
        rig = Rig(rng, ctx, s, maxlen=rng.choice([None, 4, 300]))
        rig.start()
        rig.settle()
        rig.feed(rng.randint(1, 6))
        for i in range(rng.choice([9, 17, 33, 70, 130])):
            rd = rig.reader(ignore_no_item_found=True)
            if rng.random() < 0.7:
                rig.query(rd, rng.choice(['read', 'next', 'tail']), {})
            if rng.random() < 0.1:
                rig.feed(1)
        for _ in range(20):
            rig.query(rng.choice(rig.readers), rng.choice(['read', 'next', 'head']), {})
        rig.all_cursors('many readers')
        ctx.count('readers in a crowd', len(rig.readers))
        ctx.interesting('crowd', rig.kind, rig.maxlen, rig.made, len(rig.readers))
        rig.stream.stop()

    ctx.run(s, main)


def case(rng, ctx):
    if ctx.case_id % 100 == 13:
        return crowd_case(rng, ctx)
    x = rng.random()
    if x < 0.45:
        program(rng, ctx, WEIGHTS, n_readers=(2, 5), mutate=0.4, check_contents=0.15)
    elif x < 0.8:
        threads_case(rng, ctx)
    else:
        births_case(rng, ctx)
