"""C15: the readers-writer lock excludes, shares and prefers writers."""
import random
import threading
import time

from lib.harness import SrcError, same

ID = 'C15'
TECHNIQUE = 'runtime monitoring: holder-set monitor under controlled schedules, timed arrival scenarios'
RULE = (
    'two workloads on RWLock and RWLockSortedDeque: (a) 2-7 threads acquire for reading or '
    'writing back to back, preempted at every line inside and outside the lock, some guarded '
    'blocks raising; a monitor keeps the set of holders; (b) arrivals spaced far apart in virtual '
    'time with 1-80 threads and random holding times, so that who waits for whom is known at every arrival, checked '
    'for sharing and for writers going before later readers; every run must complete; non-trivial: '
    'a thread had to wait, or at least two readers held at once'
)
ASSUMPTIONS = ['acquisitions are not nested',
               'a writer counts as waiting once it is blocked, not while it is still arriving']
QUICK = 6000
THOROUGH = 150000
MIN = {'read sections': 20000, 'write sections': 10000, 'blocks that raised': 1000,
       'readers sharing': 3000, 'readers arriving behind a waiting writer': 1000,
       'readers arriving with no writer about': 3000, 'writers that waited': 1000}


def case(rng, ctx):
    if ctx.case_id % 100 != 13 and rng.random() < 0.5:
        stress(rng, ctx)
    else:
        timed(rng, ctx)


class Held:
    def __init__(self, ctx, s):
        self.ctx, self.s = ctx, s
        self.readers, self.writers = set(), set()

    def enter(self, kind, who):
        c = self.ctx
        if kind == 'w':
            c.check(not self.readers and not self.writers, 'writer not alone',
                    f'{who} was admitted for writing while {self.readers} read and '
                    f'{self.writers} write')
            self.writers.add(who)
        else:
            c.check(not self.writers, 'reader admitted while a writer holds',
                    f'{who}; writing: {self.writers}')
            self.readers.add(who)
            if len(self.readers) > 1:
                c.count('readers sharing')
                c.most('readers at once', len(self.readers))
        c.count('write sections' if kind == 'w' else 'read sections')

    def leave(self, kind, who):
        (self.writers if kind == 'w' else self.readers).discard(who)


class Boom(BaseException):
    pass


def make(rng):
    from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
    from stream2py.utility.reader_writer_lock import RWLock

    if rng.random() < 0.4:
        return RWLock(), False
    return RWLockSortedDeque(maxlen=rng.choice([None, 3])), True


def section(lock, deque, kind, held, who, body, ctx):
    """One guarded section; body may raise."""
    if not deque:
        (lock.writer_acquire if kind == 'w' else lock.reader_acquire)()
        held.enter(kind, who)
        try:
            body(None)
        except (SrcError, Boom):
            ctx.count('blocks that raised')
        held.leave(kind, who)
        (lock.writer_release if kind == 'w' else lock.reader_release)()
        return
    try:
        with (lock.writer_lock() if kind == 'w' else lock.reader_lock()) as d:
            held.enter(kind, who)
            try:
                body(d)
            finally:
                held.leave(kind, who)
    except (SrcError, Boom) as e:
        ctx.check(e.args and e.args[0] == who, 'exception changed', repr(e))
        ctx.count('blocks that raised')


def stress(rng, ctx):
    s = ctx.sched(rng)
    seed = rng.getrandbits(60)

    def main(s):
        lock, deque = make(rng)
        held = Held(ctx, s)
        n = rng.randint(2, 7)
        kinds = [rng.choice(['r', 'w', 'rw']) for _ in range(n)]
        k = rng.choice([1, 3, 8])
        inside = rng.choice([0, 0, 3, 10])
        nap = rng.choice([0, 0, 0.3])
        bad = rng.choice([0, 0.2, 0.6])
        ctx.describe(workload='stress', threads=''.join(kinds), rounds=k, deque=deque,
                     mode=s.mode, p=s.p, raising=bad)
        box = [0, 0]
        written = [0]

        def work(who):
            rg = random.Random(f'{seed}:{who}')
            for i in range(k):
                kind = rg.choice(kinds[who])

                def body(d, kind=kind):
                    if kind == 'w':
                        box[0] += 1
                        for _ in range(rg.randint(0, inside)):
                            s.point()
                        if d is not None:
                            d.append(written[0])
                        written[0] += 1
                        box[1] += 1
                    else:
                        a = list(box)
                        if d is not None:
                            b = list(d)
                        for _ in range(rg.randint(0, inside)):
                            s.point()
                        ctx.check(a[0] == a[1] and a == box, 'section torn', f'{a} {box}')
                        if d is not None:
                            ctx.check(same(b, list(d)), 'section torn', f'{b} {list(d)}')
                    if nap and rg.random() < nap:
                        time.sleep(0.01)
                    if rg.random() < bad:
                        raise rg.choice([SrcError, Boom])(who)

                section(lock, deque, kind, held, who, body, ctx)
                if rg.random() < 0.3:
                    time.sleep(rg.choice([0, 0.001]))

        ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        # free again
        for kind in ('w', 'r', 'w'):
            section(lock, deque, kind, held, 'last', lambda d: None, ctx)
        if s.switches > n:
            ctx.interesting(s.sig)

    ctx.run(s, main, allow=())


def timed(rng, ctx):
    s = ctx.sched(rng, tick=0)
    seed = rng.getrandbits(60)

    def main(s):
        lock, deque = make(rng)
        held = Held(ctx, s)
        n = rng.randint(2, 9)
        pw = rng.choice([0.2, 0.4, 0.6])
        plan = []
        for i in range(n):
            kind = 'w' if rng.random() < pw else 'r'
            plan.append((kind, 1 + i, rng.choice([0.4, 1.4, 2.4, 3.4, 6.4, 9.4]) + i * 0.01))
        if rng.random() < 0.3:
            plan = [('r', t, h) for _, t, h in plan]
        if ctx.case_id % 100 == 13:  # many inside at once, and a writer behind them
            n = rng.choice([12, 20, 40, 80])
            plan = [('r' if rng.random() < 0.97 else 'w', 1 + i, n + 5 + i * 0.01)
                    for i in range(n)]
            plan += [('w', 1 + n, 0.4), ('r', 2.5 + n, 0.4)]
            n += 2
        bad = rng.choice([0, 0.3])
        ctx.describe(workload='timed', plan=plan, deque=deque, raising=bad)
        came, got, left = {}, {}, {}

        def one(i, kind, t, hold):
            rg = random.Random(f'{seed}:{i}')
            time.sleep(t)
            came[i] = s.now

            def body(d):
                got[i] = s.now
                time.sleep(hold)
                left[i] = s.now
                if rg.random() < bad:
                    raise SrcError(i)

            section(lock, deque, kind, held, i, body, ctx)

        ts = [threading.Thread(target=one, args=(i, *p)) for i, p in enumerate(plan)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        ctx.check(len(got) == n, 'not admitted', str(sorted(got)))
        eps = 0.1
        trail = [(k, round(came[i], 2), round(got[i], 2), round(left[i], 2))
                 for i, (k, _, _) in enumerate(plan)]
        waited = 0
        for i, (kind, _, _) in enumerate(plan):
            t = came[i]
            if got[i] - t > eps:
                waited += 1
                if kind == 'w':
                    ctx.count('writers that waited')
            if kind == 'w':
                continue
            ws = [j for j, (k, _, _) in enumerate(plan) if k == 'w' and came[j] < t]
            about = [j for j in ws if left[j] > t - eps]
            if not about:
                ctx.count('readers arriving with no writer about')
                ctx.check(got[i] - t < eps, 'reader kept waiting by readers',
                          f'reader {i} of {trail} (kind, came, admitted, left)')
            for j in about:
                if got[j] > t + eps:  # still waiting when the reader came
                    ctx.count('readers arriving behind a waiting writer')
                    ctx.check(got[j] < got[i],
                              'reader admitted before a waiting writer',
                              f'reader {i}, writer {j} of {trail} (kind, came, admitted, left)')
        if waited or any(p[0] == 'r' for p in plan):
            ctx.interesting(plan, s.sig)

    ctx.run(s, main, allow=())
