"""What every check uses: verdicts, counters, outcomes of calls, schedule choice."""
import gc
import hashlib
import json
import random
import traceback

from lib import vsched


class Violation(Exception):
    """The property is broken; mechanism names how, independent of random values."""

    def __init__(self, mechanism, text=''):
        super().__init__(f'{mechanism}: {text}')
        self.mechanism = mechanism
        self.text = text


class Inconclusive(Exception):
    """The oracle could not decide this case."""


class SrcError(Exception):
    """Raised on purpose by a monitored source or callback."""


class Ctx:
    """Counters, witnesses and configuration of one worker's run over many cases."""

    def __init__(self, prop, tier, force_trace=False):
        self.prop, self.tier = prop, tier
        self.thorough = tier == 'thorough'
        self.force_trace = force_trace
        self.counters = {}
        self.maxima = {}
        self.sets = {}
        self.samples = []
        self.nontrivial = set()
        self.hits = set()
        self.case_id = None
        self.desc = None
        self.fresh = False
        self.trail = []

    # -- one case --------------------------------------------------------------------
    def begin(self, case_id):
        self.case_id = case_id
        self.desc = {}
        self.trail = []
        self.marks = []

    def describe(self, **kw):
        self.desc.update(kw)

    def end(self):
        if self.marks:
            self.nontrivial.add(digest(self.marks))
        if len(self.samples) < 3 and self.desc:
            self.samples.append(dict(self.desc))

    def note(self, *what):
        """A line of the witness shown with a violation."""
        if len(self.trail) < 4000:
            self.trail.append(what)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def most(self, name, v):
        if v > self.maxima.get(name, v - 1):
            self.maxima[name] = v

    def seen(self, name, value):
        s = self.sets.setdefault(name, set())
        if len(s) < 200_000:
            s.add(digest(value))

    def interesting(self, *value):
        """This case exercised what the rule asks for; value identifies it."""
        self.marks.append(value)

    def check(self, ok, mechanism, *text):
        self.count('assertions')
        if not ok:
            raise Violation(mechanism, ' '.join(str(t) for t in text))

    def fail(self, mechanism, *text):
        raise Violation(mechanism, ' '.join(str(t) for t in text))

    # -- schedules -------------------------------------------------------------------
    def sched(self, rng, seq=False, trace=True, **kw):
        """A scheduler with parameters drawn from rng."""
        seed = rng.getrandbits(60)
        if seq:
            args = dict(mode='seq', trace=self.force_trace, tick=1e-6)
        else:
            mode = rng.choice(['random', 'random', 'random', 'pct', 'pct'])
            args = dict(
                mode=mode,
                p=rng.choice([0.005, 0.02, 0.05, 0.1, 0.25, 0.6]),
                depth=rng.randint(1, 5),
                horizon=rng.choice([200, 600, 1500, 4000]),
                tick=rng.choice([0, 1e-6, 1e-5, 1e-4, 1e-3]),
                trace=trace or self.force_trace,
                hits=self.hits,
            )
        args.update(kw)
        return vsched.Sched(seed, **args)

    def run(self, s, fn, allow=(SrcError,)):
        """Run fn under s; anything that went wrong becomes an exception here."""
        s.run(fn)
        self.count('executions')
        self.count('scheduling points', s.steps)
        self.most('scheduling points in one execution', s.steps)
        self.count('context switches', s.switches)
        self.seen('distinct interleavings', s.sig)
        if isinstance(s.error, (Violation, Inconclusive)):
            raise s.error
        for _, e in s.thread_errors:
            if isinstance(e, (Violation, Inconclusive)):
                raise e
        if s.failure is not None:
            raise Violation(s.failure[0], s.failure[1])
        if s.error is not None:
            raise s.error
        for name, e in s.thread_errors:
            if not isinstance(e, allow):
                raise Violation('thread died', f'{name}: {fmt_exc(e)}')
        return s


def digest(v):
    return hashlib.blake2b(repr(v).encode(), digest_size=8).hexdigest()


def fmt_exc(e):
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]


def call(fn, *a, **k):
    """Outcome of a call: ('ret', value) or ('exc', exception)."""
    try:
        return ('ret', fn(*a, **k))
    except Violation:
        raise
    except Exception as e:
        # the frames of a stored traceback would keep items alive
        e.__traceback__ = None
        e.__context__ = None
        e.__cause__ = None
        return ('exc', e)


def show(o):
    return f'returned {o[1]!r}' if o[0] == 'ret' else f'raised {type(o[1]).__name__}: {o[1]}'


def same(a, b):
    """Equal values of equal types (items are never confused with equal ones of other types)."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a).__module__ in ('builtins', 'datetime'):
        return a == b
    if getattr(type(a), 'by_value', False):  # a key
        return a.v == b.v
    return False  # an item of a class of its own is only itself


def from_repo(e):
    """Does the traceback of e pass through the code under test?"""
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith('/repo/'):
            return True
        tb = tb.tb_next
    return False


def collect():
    gc.collect()


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        if isinstance(x, dict):
            return {str(k): jsonable(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [jsonable(v) for v in x]
        return repr(x)


def weighted(rng, pairs):
    pairs = list(pairs)
    return rng.choices([p[0] for p in pairs], [p[1] for p in pairs])[0]


def subset(rng, xs, p=0.5):
    return [x for x in xs if rng.random() < p]


__all__ = [n for n in dir() if not n.startswith('__')]
_ = random
