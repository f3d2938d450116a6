"""The reference model: a window of (key, item) pairs and readers with a cursor."""
import bisect

from lib.harness import same

NONE = ('ret', None)
VALUE = (ValueError,)
LOOKUP = (ValueError, LookupError)  # "raises": IndexError on an empty window is tolerated


class Want:
    """A set of acceptable outcomes of one query."""

    def __init__(self, rets=(), excs=(), cursor=None, moves=False):
        self.rets = list(rets)  # acceptable return values
        self.excs = tuple(excs)  # acceptable exception types
        self.cursor = cursor  # (item, key) after a return of rets[0]
        self.moves = moves

    def ok(self, out):
        if out[0] == 'exc':
            return bool(self.excs) and isinstance(out[1], self.excs)
        return any(same(out[1], r) for r in self.rets)

    def __repr__(self):
        w = [f'return {r!r}' for r in self.rets]
        w += ['raise ' + '/'.join(e.__name__ for e in self.excs)] if self.excs else []
        return ' or '.join(w)


def miss(ignore, excs=VALUE):
    return Want([None]) if ignore else Want(excs=excs)


def after(keys, cursor):
    """Index of the first held item after the cursor."""
    return 0 if cursor is None else bisect.bisect_right(keys, cursor[1])


def want_read(keys, items, cursor, n=1, peek=False, ignore=False, strict=False):
    i = after(keys, cursor)
    if i >= len(items):
        return miss(ignore)
    if n > 1:
        part = list(items[i:i + n])
        if strict and len(part) < n:
            return Want(excs=VALUE)
        return Want([part], cursor=(part[-1], keys[i + len(part) - 1]), moves=not peek)
    return Want([items[i]], cursor=(items[i], keys[i]), moves=not peek)


def want_range(keys, items, cursor, start, stop, step=None, peek=False, ignore=False,
               only_new=False, start_le=False, stop_ge=False):
    if only_new and cursor is not None:
        i = after(keys, cursor)
        if i >= len(items):
            return miss(ignore, LOOKUP)
    if start_le:
        i = bisect.bisect_right(keys, start)
        if i:
            start = keys[i - 1]
    if stop_ge:
        i = bisect.bisect_left(keys, stop)
        if i >= len(keys):
            return miss(ignore, LOOKUP)
        stop = keys[i]
    i = bisect.bisect_left(keys, start)
    j = bisect.bisect_right(keys, stop)
    if only_new and cursor is not None:
        i = max(i, after(keys, cursor))
    sel = list(range(i, max(i, j)))[::step]
    if not sel:
        if peek:  # an empty list, or the miss rule: either is "nothing"
            return Want([[], None], excs=LOOKUP)
        return miss(ignore, LOOKUP)
    out = [items[x] for x in sel]
    return Want([out], cursor=(out[-1], keys[sel[-1]]), moves=not peek)


def want_tail(keys, items, cursor, peek=False, ignore=False, only_new=False):
    if not items or (only_new and cursor is not None and not keys[-1] > cursor[1]):
        return miss(ignore, LOOKUP)
    return Want([items[-1]], cursor=(items[-1], keys[-1]), moves=not peek)


def want_head(keys, items, cursor, peek=False):
    if not items:
        return Want(excs=LOOKUP)
    return Want([items[0]], cursor=(items[0], keys[0]), moves=not peek)


class ReaderModel:
    """A reader: its defaults and its cursor; expectations for each kind of query."""

    def __init__(self, n=1, peek=False, ignore=False, strict=False):
        self.n, self.peek, self.ignore, self.strict = n, peek, ignore, strict
        self.cursor = None

    def want(self, keys, items, op, kw):
        """Acceptable outcomes of reader.<op>(**kw) on a window of these keys and items."""
        g = kw.get
        if op == 'read':
            n, p, i, s = g('n'), g('peek'), g('ignore_no_item_found'), g('strict_n')
            return want_read(
                keys, items, self.cursor,
                n=self.n if n is None else n,
                peek=self.peek if p is None else p,
                ignore=self.ignore if i is None else i,
                strict=self.strict if s is None else s,
            )
        if op == 'next':  # next(reader) while the stream runs
            return want_read(keys, items, self.cursor, self.n, self.peek, True, self.strict)
        if op == 'next_method':  # the deprecated reader.next()
            return want_read(keys, items, self.cursor, g('n', 1), g('peek', False),
                             g('ignore_no_item_found', False), g('strict_n', False))
        if op == 'range':
            i = g('ignore_no_item_found')
            return want_range(
                keys, items, self.cursor, kw['start'], kw['stop'], g('step'),
                peek=g('peek', False), ignore=self.ignore if i is None else i,
                only_new=g('only_new_items', False), start_le=g('start_le', False),
                stop_ge=g('stop_ge', False),
            )
        if op == 'tail':
            return want_tail(keys, items, self.cursor, g('peek', False),
                             g('ignore_no_item_found', False), g('only_new_items', False))
        if op == 'head':
            return want_head(keys, items, self.cursor, g('peek', False))
        raise AssertionError(op)

    def apply(self, want, out):
        """Move the cursor as the accepted outcome demands."""
        if out[0] == 'ret' and want.moves and out[1] is not None:
            self.cursor = want.cursor


def invoke(reader, op, kw):
    """Perform the query on the real reader."""
    if op == 'next':
        return next(reader)
    if op == 'next_method':
        return reader.next(**kw)
    if op == 'range':
        kw = dict(kw)
        return reader.range(kw.pop('start'), kw.pop('stop'), kw.pop('step', None), **kw)
    return getattr(reader, op)(**kw)
