"""C22: context-forwarding wrappers are transparent and forward enter and exit."""
import contextlib
import functools
import inspect

from lib.harness import call, show

ID = 'C22'
TECHNIQUE = 'runtime monitoring: recorded calls of the wrapped callable and of its enter and exit functions'
RULE = (
    'callables of 9 kinds (functions, lambdas, bound, class and static methods, partials, callable '
    'instances, classes, wrappers) wrapped 1 to 4 deep with recording enter and exit functions of '
    '6 shapes, and bound methods forwarded to their instances, then run through random programs '
    'of calls, attribute accesses and changes, and nested contexts whose bodies, enters and exits '
    'may raise any exception; every call received is compared with what was issued; non-trivial: '
    'a context of a nested wrapper or an exception in a body'
)
ASSUMPTIONS = ['enter and exit functions have a signature that can be inspected',
               'attributes named func, enter_func and exit_func are the wrapper\'s own']
QUICK = 30000
THOROUGH = 1000000
MIN = {'calls': 30000, 'contexts': 30000, 'exceptions in the body': 8000, 'suppressed': 2000,
       'nested wrappers': 8000, 'instance contexts': 5000, 'refusals': 2500,
       'enters that raise': 1000, 'attributes': 10000}


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


EXCS = [Boom, BaseBoom, ValueError, KeyError, StopIteration, KeyboardInterrupt, GeneratorExit,
        TypeError, AttributeError, RecursionError]


class Rec:
    """Records the calls of one function."""

    def __init__(self):
        self.calls = []
        self.result = None
        self.exc = None

    def hit(self, /, *a, **k):
        self.calls.append((a, k))
        if self.exc is not None:
            raise self.exc
        return self.result

    def take(self):
        c, self.calls = self.calls, []
        return c


def mk_callable(rng, rec):
    """(callable, positional arguments put in front by it)."""
    kind = rng.choice(['def', 'lambda', 'method', 'class method', 'static', 'partial', 'instance',
                       'class', 'def'])
    if kind == 'def':
        def f(*a, **k):
            """Doc of f."""
            return rec.hit(*a, **k)

        f.mark = object()
        return kind, f, (), {}
    if kind == 'lambda':
        return kind, lambda *a, **k: rec.hit(*a, **k), (), {}
    if kind == 'partial':
        return kind, functools.partial(rec.hit, 'p', z=3), ('p',), {'z': 3}

    class C:
        """Doc of C."""

        shared = object()

        def __init__(self, *a, **k):
            self.out = rec.hit(*a, **k) if kind == 'class' else None

        def meth(self, *a, **k):
            """Doc of meth."""
            return rec.hit(self, *a, **k)

        @classmethod
        def cm(cls, *a, **k):
            return rec.hit(cls, *a, **k)

        @staticmethod
        def sm(*a, **k):
            return rec.hit(*a, **k)

        def __call__(self, *a, **k):
            return rec.hit(*a, **k)

        # an attribute of a callable instance may have the name of one of the wrapper
        @property
        def prop(self):
            return self

    if kind == 'class':
        return kind, C, (), {}
    c = C()
    c.own = object()
    if kind == 'method':
        return kind, c.meth, (c,), {}
    if kind == 'class method':
        return kind, C.cm, (C,), {}
    if kind == 'static':
        return kind, C.sm, (), {}
    if rng.random() < 0.3:
        c.func = 'mine'
        c.enter_func = 'mine'
    return kind, c, (), {}


def mk_enter(rng, rec):
    k = rng.randrange(5)
    if k == 0:
        return lambda f: rec.hit(f)
    if k == 1:
        return lambda *a: rec.hit(*a)
    if k == 2:
        return functools.partial(lambda x, f: rec.hit(f), 0)
    if k == 3:
        class E:
            def enter(self, obj, more=None):
                return rec.hit(obj)
        return E().enter

    class E:
        def __call__(self, obj):
            return rec.hit(obj)
    return E()


def mk_exit(rng, rec):
    k = rng.randrange(6)
    if k == 0:
        return lambda f, *errs: rec.hit(f, *errs)
    if k == 1:
        return lambda f, t, v, tb: rec.hit(f, t, v, tb)
    if k == 2:
        return lambda *a: rec.hit(*a)
    if k == 3:
        return functools.partial(lambda x, f, t, v, tb: rec.hit(f, t, v, tb), 0)
    if k == 4:
        class E:
            def exit(self, obj, t=None, v=None, tb=None):
                return rec.hit(obj, t, v, tb)
        return E().exit

    class E:
        def __call__(self, obj, t, v, tb, extra=1):
            return rec.hit(obj, t, v, tb)
    return E()


class Level:
    """One wrapper around inner."""

    def __init__(self, inner, w, enter, exit_):
        self.inner, self.w, self.enter, self.exit = inner, w, enter, exit_


def case(rng, ctx):
    from stream2py.util import ContextualizeCall

    if rng.random() < 0.3:
        return instance_case(rng, ctx)
    if rng.random() < 0.25:
        return refusal_case(rng, ctx)
    base = Rec()
    kind, func, pre, pre_kw = mk_callable(rng, base)
    levels = []
    inner = func
    depth = rng.choice([1, 1, 2, 3, 4])
    for _ in range(depth):
        en, ex = Rec(), Rec()
        style = rng.randrange(4)
        ef, xf = mk_enter(rng, en), mk_exit(rng, ex)
        if style == 0:
            o = call(ContextualizeCall, inner, ef, xf)
        elif style == 1:
            o = call(ContextualizeCall, inner, enter_func=ef, exit_func=xf)
        elif style == 2:
            o, en = call(ContextualizeCall, inner, exit_func=xf), None
        else:
            o, ex = call(ContextualizeCall, inner, ef), None
        ctx.check(o[0] == 'ret', 'usable functions refused',
                  f'{kind} {inspect.signature(ef)} {inspect.signature(xf)}: {show(o)}')
        levels.append(Level(inner, o[1], en, ex))
        inner = o[1]
    ctx.describe(kind=kind, depth=depth)
    every = [x for l in levels for x in (l.enter, l.exit) if x is not None]

    def quiet(but=()):
        for r in every + [base]:
            if r not in but:
                ctx.check(not r.calls, 'called for no reason', f'{r.calls[:3]}')

    def calls(w):
        a = tuple(rng.choices([0, None, 'x', (1,), object()], k=rng.randint(0, 3)))
        k = {n: rng.random() for n in rng.sample(['a', 'b', 'self', 'args', 'exc'], rng.randint(0, 2))}
        if kind in ('method', 'class', 'class method', 'instance'):
            k.pop('self', None)
        base.result, base.exc = object(), None
        if rng.random() < 0.3:
            base.exc = rng.choice(EXCS)('call')
        try:
            o = ('ret', w(*a, **k))
        except BaseException as e:
            o = ('exc', e)
        got = base.take()
        ctx.count('calls')
        ctx.check(got == [(pre + a, {**pre_kw, **k})], 'arguments', f'{got}, issued {a} {k} ({kind})')
        if base.exc is not None:
            ctx.check(o[0] == 'exc' and o[1] is base.exc, 'exception of the call', str(o))
        elif kind == 'class':
            ctx.check(o[0] == 'ret' and isinstance(o[1], func) and o[1].out is base.result,
                      'result', str(o))
        else:
            ctx.check(o[0] == 'ret' and o[1] is base.result, 'result', str(o))
        quiet()

    def attributes(w):
        for n in ('__name__', '__doc__', '__module__', '__qualname__', 'mark', 'own', 'shared',
                  'out', 'cm', 'sm', 'prop', 'missing', '__self__', 'args', 'keywords', '__defaults__'):
            if n in ('__module__', '__qualname__', '__name__', '__doc__') and not hasattr(func, n):
                continue
            if n == '__doc__' and getattr(func, n) is None:
                continue
            due = call(getattr, func, n)
            o = call(getattr, w, n)
            ctx.check(o[0] == due[0] and (o[1] == due[1] if o[0] == 'ret'
                                          else type(o[1]) is type(due[1])),
                      'attribute', f'{n} of {kind}: {show(o)}, due {show(due)}')
            ctx.count('attributes')
        ctx.check(call(inspect.signature, w) == call(inspect.signature, func), 'signature', kind)
        if kind in ('def', 'instance', 'class', 'lambda'):
            # changed or added later
            n = rng.choice(['mark', 'own', 'shared', 'later'])
            v = object()
            setattr(func, n, v)
            ctx.check(call(getattr, w, n) == ('ret', v), 'attribute changed later', f'{n} of {kind}')
        quiet()

    def context(level, depth_left):
        lv = levels[level]
        w = lv.w
        if level:
            ctx.count('nested wrappers')
            ctx.interesting(kind, level, depth)
        ctx.count('contexts')
        en, ex = lv.enter, lv.exit
        if en:
            en.result, en.exc = rng.choice([object(), None, w, 0]), None
            if rng.random() < 0.1:
                en.exc = rng.choice(EXCS)('enter')
        # what the exit does
        if ex:
            ex.exc = None
            ex_result = rng.choice([None, None, False, True, 1, 0, 'yes', ''])
            ex_exc = rng.choice(EXCS)('exit') if rng.random() < 0.1 else None
        else:
            ex_result = ex_exc = None
        body_exc = rng.choice(EXCS)('body') if rng.random() < 0.4 else None
        entered = []
        how = rng.randrange(3)

        def body(v):
            entered.append(v)
            if en:
                got = en.take()
                ctx.check(len(got) == 1 and len(got[0][0]) == 1 and got[0][0][0] is lv.inner
                          and not got[0][1], 'enter function called', f'{got}')
                ctx.check(v is en.result, 'result of enter', f'{v!r}, due {en.result!r}')
            else:
                ctx.check(v is lv.inner, 'result of the default enter', f'{v!r}')
            quiet()
            for _ in range(rng.choice([0, 1, 2])):
                x = rng.random()
                if x < 0.6:
                    calls(rng.choice(levels).w)
                elif depth_left:
                    context(rng.randrange(len(levels)), depth_left - 1)
            if ex:
                ex.result, ex.exc = ex_result, ex_exc
            if body_exc is not None:
                raise body_exc

        out = None
        try:
            if how == 0:
                with w as v:
                    body(v)
            elif how == 1:
                with contextlib.ExitStack() as st:
                    body(st.enter_context(w))
            else:
                @contextlib.contextmanager
                def gen():
                    with w as v:
                        yield v
                if isinstance(body_exc, (StopIteration, GeneratorExit)) \
                        or isinstance(ex_exc, StopIteration) \
                        or en and isinstance(en.exc, StopIteration):
                    with w as v:
                        body(v)
                else:
                    with gen() as v:
                        body(v)
        except BaseException as e:
            out = e
            if type(e).__name__ in ('Violation', 'Inconclusive'):
                raise
        if en and en.exc is not None:
            ctx.count('enters that raise')
            ctx.check(out is en.exc and not entered, 'enter failed', f'{out!r}, body ran: {entered}')
            ctx.check(len(en.take()) == 1, 'enter function called', 'not once')
            en.exc = None
            quiet()
            return
        ctx.check(len(entered) == 1, 'body runs', str(entered))
        if ex:
            got = ex.take()
            ctx.check(len(got) == 1, 'exit function called', f'{len(got)} times: {got}')
            a = got[0][0]
            ctx.check(len(a) == 4 and a[0] is lv.inner, 'exit arguments', str(a))
            if body_exc is None:
                ctx.check(a[1:] == (None, None, None), 'exit arguments', str(a))
            else:
                ctx.check(a[1] is type(body_exc) and a[2] is body_exc
                          and inspect.istraceback(a[3]), 'exit arguments', str(a))
        quiet()
        if body_exc is not None:
            ctx.count('exceptions in the body')
            ctx.interesting(kind, type(body_exc).__name__, level, bool(ex_result))
        due = ex_exc if ex_exc is not None else None if ex_result else body_exc
        if body_exc is not None and ex_exc is None and ex_result:
            ctx.count('suppressed')
        ctx.check(out is due, 'exception decided by exit', f'{out!r}, due {due!r} '
                  f'(exit gives {ex_result!r} or raises {ex_exc!r})')

    for _ in range(rng.choice([2, 4, 8])):
        x = rng.random()
        if x < 0.35:
            calls(rng.choice(levels).w)
        elif x < 0.5:
            attributes(rng.choice(levels).w)
        else:
            context(rng.randrange(len(levels)), 2)


def instance_case(rng, ctx):
    """Bound methods whose context is their instance's."""
    from stream2py import util

    log = []

    class Inst:
        def __init__(self, name):
            self.name = name
            self.result = object()
            self.suppress = None

        def __enter__(self):
            log.append((self, 'enter'))
            return self.result

        def __exit__(self, *exc):
            log.append((self, 'exit', exc))
            return self.suppress

        def meth(self, x, *, y=0):
            log.append((self, 'meth', x, y))
            return (self, x, y)

        def other(self):
            return self

    objs = [Inst(i) for i in range(rng.choice([1, 2, 3]))]
    ws = [(o, util.contextualize_with_instance(o.meth)) for o in objs]
    if rng.random() < 0.3:
        o = rng.choice(objs)
        ws.append((o, util.contextualize_with_instance(util.ContextualizeCall(o.meth))))
    if rng.random() < 0.3:
        o = rng.choice(objs)
        ws.append((o, util.contextualize_with_instance(util.contextualize_with_instance(o.meth))))
    stack = []
    for _ in range(rng.choice([3, 6, 12])):
        o, w = rng.choice(ws)
        x = rng.random()
        if x < 0.3:
            y = rng.random()
            r = call(w, 'v', y=y)
            ctx.check(r == ('ret', (o, 'v', y)) and log == [(o, 'meth', 'v', y)], 'method call',
                      f'{show(r)} {log}')
            ctx.count('calls')
            log.clear()
        elif x < 0.7:
            o.result = rng.choice([object(), o, None])
            o.suppress = rng.choice([None, True, False, 1])
            exc = rng.choice(EXCS)('b') if rng.random() < 0.5 else None
            out = None
            ctx.count('instance contexts')
            ctx.count('contexts')
            try:
                with w as v:
                    ctx.check(v is o.result and log == [(o, 'enter')], 'instance entered',
                              f'{v!r} {log}')
                    log.clear()
                    if exc is not None:
                        raise exc
            except BaseException as e:
                if type(e).__name__ == 'Violation':
                    raise
                out = e
            ctx.check(len(log) == 1 and log[0][0] is o and log[0][1] == 'exit', 'instance exited',
                      f'{log}')
            a = log[0][2]
            ctx.check(a[1] is exc and a[0] is (type(exc) if exc is not None else None)
                      and (a[2] is None) == (exc is None), 'exit arguments', f'{a}')
            due = None if o.suppress else exc
            if exc is not None:
                ctx.count('exceptions in the body')
                ctx.interesting('instance', type(exc).__name__, bool(o.suppress))
                if o.suppress:
                    ctx.count('suppressed')
            ctx.check(out is due, 'exception decided by exit', f'{out!r}, due {due!r}')
            log.clear()
        else:
            stack.append(w)
            with contextlib.ExitStack() as st:
                for q in stack:
                    st.enter_context(q)
                owners = [next(p for p, z in ws if z is q) for q in stack]
                ctx.check([e[0] for e in log] == owners, 'instances entered in order', str(log))
                log.clear()
            ctx.check([e[0] for e in log] == owners[::-1] and all(e[1] == 'exit' for e in log),
                      'instances exited in order', str(log))
            log.clear()
            ctx.count('instance contexts', len(stack))
            ctx.count('contexts', len(stack))


def refusal_case(rng, ctx):
    from stream2py.util import ContextualizeCall

    good_f = lambda x: x  # noqa: E731
    bad_callables = [None, 0, 'f', object(), [], (), 3.5]
    short_exits = [lambda: 0, lambda f: 0, lambda f, t: 0, lambda f, t, v: 0,
                   functools.partial(lambda f, t, v, tb: 0, 1), Short().exit, Short(),
                   lambda f, *, t, v: 0]
    short_enters = [lambda: 0, Short().enter, functools.partial(lambda f: 0, 1)]
    k = rng.randrange(5)
    if k == 0:
        o = call(ContextualizeCall, rng.choice(bad_callables))
    elif k == 1:
        o = call(ContextualizeCall, good_f, rng.choice(bad_callables))
    elif k == 2:
        o = call(ContextualizeCall, good_f, exit_func=rng.choice(bad_callables))
    elif k == 3:
        o = call(ContextualizeCall, good_f, rng.choice(short_enters))
    else:
        o = call(ContextualizeCall, good_f, exit_func=rng.choice(short_exits))
    ctx.check(o[0] == 'exc' and isinstance(o[1], TypeError), 'unusable function accepted',
              f'case {k}: {show(o)}')
    ctx.count('refusals')


class Short:
    def enter(self):
        return 1

    def exit(self, t, v, tb):
        return 1

    def __call__(self, f, t):
        return 1
