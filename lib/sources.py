"""Monitored sources: every call is an event in one total order."""
import datetime
import threading
import time

from lib import vsched
from lib.harness import SrcError


class Ev:
    """One event at the boundary between the stream and its source."""

    __slots__ = ('seq', 'what', 'val', 'thread', 't')

    def __init__(self, seq, what, val, thread, t):
        self.seq, self.what, self.val, self.thread, self.t = seq, what, val, thread, t

    def __repr__(self):
        return f'{self.seq}:{self.what}{"" if self.val is None else "=" + repr(self.val)}'


class Log(list):
    def __init__(self, s):
        super().__init__()
        self.s = s

    def ev(self, what, val=None):
        s = self.s
        e = Ev(s.tick_seq(), what, val, vsched._get_ident(), s.now)
        self.append(e)
        return e

    def of(self, *whats):
        return [e for e in self if e.what in whats]


# -- kinds of items: (make item i, key function or None for identity) ----------------------
class Rec:
    """An item with identity equality, weakly referable."""

    __slots__ = ('k', 'tag', '__weakref__')

    def __init__(self, k, tag=None):
        self.k, self.tag = k, tag

    def __repr__(self):
        return f'Rec({self.k!r})'


class EqVal:
    """An item that compares equal to other items with other keys."""

    __slots__ = ('k', 'v')

    def __init__(self, k, v):
        self.k, self.v = k, v

    def __eq__(self, other):
        return isinstance(other, EqVal) and self.v == other.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return f'EqVal({self.k},{self.v})'


def _kinds():
    import operator

    ident = lambda x: x  # noqa: E731
    base = datetime.datetime(2020, 1, 1)
    return {
        'int': (lambda i: i, ident),  # item 0 is falsy
        'negint': (lambda i: i - 7, ident),
        'float': (lambda i: i * 0.5 - 2.0, ident),
        'sparse': (lambda i: i * i * 3 + i, ident),
        'str': (lambda i: f's{i}', lambda d: int(d[1:])),
        'strkey': (lambda i: f'k{i:06d}', ident),
        'tuple': (lambda i: (i, 'x'), operator.itemgetter(0)),
        'tupletuple': (lambda i: (i // 3, i), ident),
        'dict': (lambda i: {'n': i, 'v': [i]}, operator.itemgetter('n')),
        'rec': (lambda i: Rec(i), operator.attrgetter('k')),
        'datetime': (lambda i: base + datetime.timedelta(seconds=i), ident),
        'bytes': (lambda i: b'%06d' % i, ident),
        'eqval': (lambda i: EqVal(i, i % 2), operator.attrgetter('k')),
        'lists': (lambda i: [i], operator.itemgetter(0)),
        'neg': (lambda i: -1000 + i, lambda d: d),
        'desc': (lambda i: 1000 - i, lambda d: -d),  # the item falls while the key rises
    }


KINDS = _kinds()
KIND_NAMES = list(KINDS)


def mk_items(kind, n, start=0):
    mk = KINDS[kind][0]
    return [mk(i) for i in range(start, start + n)]


class Src:
    """A source in the plain protocol; what read does is scripted.

    script: a list of actions, consumed one per read:
       ('item', x[, delay])  return x after a delay
       ('none',[ delay])     no data
       ('raise', exc[, delay])
    After the script: no data for ever.  push() appends actions at run time.
    """

    sleep_time_on_read_none_s = None
    delays = ()

    def __init__(self, s, key, script=(), info=None, log=None, pause=None, by_session=None):
        self.s = s
        self.log = Log(s) if log is None else log
        self._keyfn = key
        self.script = list(script)
        self.by_session = by_session  # session number -> script
        self.pos = 0
        self.opens = 0
        self.session = 0
        self.is_open = False
        self.busy = None
        self.overlaps = []
        self.faults = {}  # call name -> list of exceptions or None per call
        self.slow = {}  # call name -> virtual seconds
        self.reads = 0
        self.sleep_time_on_read_none_s = pause
        self._info = info
        self.key_calls = 0

    # -- protocol ----------------------------------------------------------------------
    def _enter(self, what):
        if self.busy is not None:
            self.overlaps.append((what, self.busy[0]))
        me = (what, vsched._get_ident())
        prev, self.busy = self.busy, me
        self.log.ev(what + '>')
        self.s.point()
        return prev

    def _leave(self, what, prev, val=None):
        self.log.ev(what + '<', val)
        self.busy = prev

    def _fault(self, what):
        f = self.faults.get(what)
        if f:
            e = f.pop(0)
            if e is not None:
                return e
        return None

    def _do(self, what, fn):
        prev = self._enter(what)
        try:
            d = self.slow.get(what)
            if d:
                time.sleep(d)
            e = self._fault(what)
            if e is not None:
                self.log.ev(what + '!')
                raise e
            v = fn()
        except BaseException:
            self.busy = prev
            raise
        self._leave(what, prev, v if what == 'read' else None)
        return v

    def open(self):
        def go():
            self.opens += 1
            self.session = self.opens
            self.is_open = True
            if self.by_session is not None:
                self.script = list(self.by_session(self.session))
                self.pos = 0

        return self._do('open', go)

    def close(self):
        def go():
            self.is_open = False

        return self._do('close', go)

    def read(self):
        return self._do('read', self.next_action)

    def next_action(self):
        self.reads += 1
        if self.pos < len(self.script):
            act = self.script[self.pos]
            self.pos += 1
        else:
            act = ('none',)
        kind = act[0]
        if kind == 'item':
            if len(act) > 2 and act[2]:
                time.sleep(act[2])
            return act[1]
        if kind == 'none':
            if len(act) > 1 and act[1]:
                time.sleep(act[1])
            return None
        if kind == 'raise':
            if len(act) > 2 and act[2]:
                time.sleep(act[2])
            self.log.ev('read!')
            raise act[1]
        if kind == 'call':
            return act[1]()
        raise AssertionError(kind)

    def key(self, data):
        self.key_calls += 1
        e = self._fault('key')
        if e is not None:
            raise e
        return self._keyfn(data)

    @property
    def info(self):
        def go():
            if self._info is not None:
                return self._info(self)
            return {'session': self.session}

        v = self._do('info', go)
        return v

    # -- harness side --------------------------------------------------------------------
    def push(self, *items):
        self.script += [('item', x) for x in items]

    @property
    def drained(self):
        return self.pos >= len(self.script)


def as_subclass(base_name):
    """The same source as a SourceReader or StreamSource subclass."""
    import stream2py

    base = getattr(stream2py, base_name)

    class Sub(Src, base):
        sleep_time_on_read_none_s = None

        def __init__(self, *a, **k):
            Src.__init__(self, *a, **k)

    # resolve the abstract methods from Src
    Sub.__abstractmethods__ = frozenset()
    return Sub


_subs = {}


def mk_src(rng_or_kind, *a, **k):
    """A monitored source: plain protocol object or subclass of a stream2py base class."""
    kind = rng_or_kind if isinstance(rng_or_kind, str) else rng_or_kind.choice(
        ['Src', 'Src', 'SourceReader', 'StreamSource'])
    if kind == 'Src':
        return Src(*a, **k)
    if kind not in _subs:
        _subs[kind] = as_subclass(kind)
    return _subs[kind](*a, **k)


def script_of(items, rng=None, none_p=0.0, delay_p=0.0, delays=(0.0005, 0.01, 0.1)):
    """Actions delivering the items with gaps and slow reads drawn from rng."""
    out = []
    for x in items:
        if rng is not None:
            while rng.random() < none_p:
                out.append(('none', rng.choice(delays) if rng.random() < delay_p else 0))
            d = rng.choice(delays) if rng.random() < delay_p else 0
            out.append(('item', x, d))
        else:
            out.append(('item', x))
    return out


__all__ = [n for n in dir() if not n.startswith('__')]
_ = (threading, SrcError)
