"""Sources whose description is not an ordinary dict: it has to be passed on as it is."""
import time
import types

from lib.harness import call, same, show
from lib.sources import KINDS, mk_src


class Falsy(dict):
    def __bool__(self):
        return False


class Strict:
    """Has no truth value, and compares with its own kind only."""

    def __init__(self, v):
        self.v = v

    def __bool__(self):
        raise ValueError('no truth value')

    def __eq__(self, other):
        if type(other) is not Strict:
            raise TypeError('not comparable')
        return self.v == other.v

    __hash__ = None

    def __repr__(self):
        return f'Strict({self.v})'


MAKE = [lambda i: None, lambda i: {}, lambda i: {'n': i}, lambda i: [], lambda i: [i], lambda i: 0,
        lambda i: '', lambda i: f'no {i}', lambda i: (), lambda i: (i, {}), lambda i: False,
        lambda i: Falsy(n=i), lambda i: Falsy(), lambda i: Strict(i), lambda i: i,
        lambda i: types.MappingProxyType({'n': i}), lambda i: float('nan'),
        lambda i: {None: i, (1, 2): {'stop_event': i}, 'key': i, 'maxlen': None}]


def odd_infos(rng, ctx):
    from stream2py import StreamBuffer

    s = ctx.sched(rng, seq=True)

    def main(s):
        mk, key = KINDS[rng.choice(['int', 'tuple'])]
        infos = [rng.choice(MAKE)(i) for i in range(rng.randint(1, 4))]
        ctx.describe(infos=repr(infos))
        src = mk_src(rng, s, key, info=lambda src: infos[src.session - 1], pause=0.05)
        stream = StreamBuffer(src, maxlen=5)
        readers = []

        def check(when):
            for r, k in readers:
                o = call(lambda: r.source_reader_info)
                ctx.count('odd infos')
                ctx.check(o[0] == 'ret' and alike(o[1], infos[k]), 'info of a reader',
                          f'{when}: {show(o)} in session {k}, due {infos[k]!r}')

        for k, info in enumerate(infos):
            o = call(stream.start)
            ctx.check(o[0] == 'ret', 'start failed', f'info {info!r}: {show(o)}')
            for when in ('running', 'after an item', 'stopped'):
                o = call(lambda: stream.source_reader_info)
                ctx.check(o[0] == 'ret' and alike(o[1], info), 'info of a stream',
                          f'{when}: {show(o)} in session {k}, due {info!r}')
                ctx.check(stream.is_running is (when != 'stopped'), 'running', when)
                readers.append((stream.mk_reader(), k))
                if k and rng.random() < 0.6:
                    i = rng.randrange(len(readers))
                    o = call(stream.attach_reader, readers[i][0])
                    ctx.check(o[0] == 'ret', 'attach_reader failed', show(o))
                    readers[i] = readers[i][0], k
                check(when)
                if when == 'running':
                    src.push(mk(100 * k))
                    time.sleep(0.3)
                    o = call(readers[-1][0].read)
                    ctx.check(same(o, ('ret', mk(100 * k))), 'item', show(o))
                elif when == 'after an item':
                    stream.stop()
        ctx.interesting('odd infos', repr(infos))

    ctx.run(s, main)


def alike(got, want):
    return got is want or type(got) is type(want) and same(got, want)
