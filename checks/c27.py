"""C27: packaging helpers keep configuration and version data intact."""
import configparser
import importlib.util
import json
import os
import random
import string
import tempfile

from lib import vsched
from lib.harness import call, show

ID = 'C27'
TECHNIQUE = 'runtime monitoring: results and files of the packaging helpers against independent models'
RULE = (
    'random configuration sections (strings of one or several lines, lists, any characters an ini '
    'line can hold, names in any case) written into random existing files and read back, all '
    'sections compared by a parser of the checks\' own; random URL parts; random template '
    'dictionaries with references to each other up to 9 deep, missing and circular ones; random '
    'release lists published by a loopback server; non-trivial: a file with several sections, a '
    'nested template, or several releases'
)
ASSUMPTIONS = [
    'list items and lines of strings are not blank, and do not begin with a comment sign',
    'URL parts have a character besides slashes and at most one slash at each end',
    'releases are dotted numbers, no two of them equal up to trailing zeros',
]
QUICK = 16000
THOROUGH = 400000
MIN = {'sections round trips': 3000, 'other sections compared': 6000, 'lists': 3000,
       'multi-line strings': 1500, 'percent signs': 800, 'capital names': 2500, 'joins': 1200,
       'templates resolved': 1100, 'templates refused': 700, 'templates partly formatted': 3000, 'next versions': 1000,
       'unknown packages': 150, 'failed writes': 200}
_pack = None
_server = None
_dir = None


def pack():
    global _pack
    if _pack is None:
        spec = importlib.util.spec_from_file_location('pack_under_test', '/repo/pack.py')
        _pack = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(_pack)
    return _pack


def case(rng, ctx):
    x = rng.random()
    if x < 0.45:
        configs(rng, ctx)
    elif x < 0.6:
        joins(rng, ctx)
    elif x < 0.85:
        templates(rng, ctx)
    else:
        versions(rng, ctx)


# -- configuration files -----------------------------------------------------------------
CHARS = string.ascii_letters + string.digits + ' ._-/:=[]{}()<>,*+\'"%$&!@^|~`\\?' + 'éß日本#;'


def line(rng):
    n = rng.choice([1, 1, 4, 12, 40])
    s = ''.join(rng.choices(CHARS, k=n)).strip()
    s = s.lstrip('#;').strip()
    return s or rng.choice(['x', '%', '%(name)s', '100%', '%%', 'a=b', '[x]'])


def value(rng, ctx):
    x = rng.random()
    if x < 0.4:
        v = line(rng)
    elif x < 0.45:
        v = ''
    elif x < 0.6:
        v = '\n'.join(line(rng) for _ in range(rng.choice([2, 3])))
        ctx.count('multi-line strings')
    else:
        v = [line(rng) for _ in range(rng.choice([1, 2, 3, 6]))]
        ctx.count('lists')
    if '%' in (v if isinstance(v, str) else ''.join(v)):
        ctx.count('percent signs')
    return v


def name(rng):
    first = rng.choice(string.ascii_letters + '_')
    s = first + ''.join(rng.choices(string.ascii_letters + string.digits + '_-. ', k=rng.randint(0, 8)))
    return s.strip()


def section(rng, ctx):
    d = {name(rng): value(rng, ctx) for _ in range(rng.choice([0, 1, 3, 6]))}
    ctx.count('capital names', sum(k != k.lower() for k in d))
    return d


def raw(path):
    c = configparser.RawConfigParser(strict=True)
    c.optionxform = str
    with open(path, encoding='utf-8') as f:
        c.read_file(f)
    return {s: dict(c[s]) for s in c.sections()}, dict(c.defaults())


def as_lines(v):
    """A value as the ini format holds it: its lines."""
    return [x.strip() for x in ('\n' + '\n'.join(v) if isinstance(v, list) else v).split('\n')]


def configs(rng, ctx):
    global _dir
    p = pack()
    if _dir is None or not os.path.isdir(_dir) or not _dir.endswith(str(os.getpid())):
        _dir = os.path.join(tempfile.gettempdir(), f'verif-c27-{os.getpid()}')
        os.makedirs(_dir, exist_ok=True)
    path = os.path.join(_dir, 'x.cfg')
    try:
        round_trips(rng, ctx, p, path)
    finally:
        if os.path.exists(path):
            os.unlink(path)
        try:
            os.rmdir(_dir)
        except OSError:
            pass
        _dir = None


def round_trips(rng, ctx, p, path):
    due = {}  # section -> {name: value}
    if rng.random() < 0.7:  # an existing file, not written by the helper
        text = []
        for _ in range(rng.choice([1, 2, 4])):
            s = rng.choice(['metadata', 'options', 'options.package_data', 'Tool:X', 'a b'])
            if s in due:
                continue
            due[s] = section(rng, ctx)
            text.append(f'[{s}]')
            for k, v in due[s].items():
                if isinstance(v, list):
                    text.append(f'{k} =')
                    text += [f'    {x}' for x in v]
                else:
                    first, *rest = v.split('\n')
                    text.append(f'{k}{rng.choice([" = ", "=", " : "])}{first}'
                                if first else f'{k} =')
                    text += [f'  {x}' for x in rest]
            if rng.random() < 0.3:
                text.append(rng.choice(['# comment', '', '; x']))
        with open(path, 'w', encoding='utf-8') as f:
            f.write('\n'.join(text) + '\n')
        # only files the format itself represents
        got, _ = raw(path)
        if {s: {k: as_lines(v) for k, v in d.items()} for s, d in got.items()} != \
                {s: {k: as_lines(v) for k, v in d.items()} for s, d in due.items()}:
            ctx.count('files the format cannot hold')
            return
    ctx.describe(sections={k: len(v) for k, v in due.items()})
    for _ in range(rng.choice([1, 2, 3])):
        s = rng.choice(['metadata', 'metadata', 'options', 'New', 'options.package_data'])
        new = section(rng, ctx)
        before, defaults = raw(path) if os.path.exists(path) else ({}, {})
        if rng.random() < 0.08 and os.path.exists(path):
            bad = dict(new, zz=rng.choice([5, None, {'a': 1}, 2.5, [1, 2]]))
            with open(path, 'rb') as f:
                content = f.read()
            o = call(p.write_configs, bad, path, s)
            if o[0] == 'exc':
                with open(path, 'rb') as f:
                    ctx.check(f.read() == content, 'file damaged by a failed write', show(o))
                ctx.count('failed writes')
            else:
                return
        given = {k: list(v) if isinstance(v, list) else v for k, v in new.items()}
        kw = {}
        if s != 'metadata' or rng.random() < 0.5:
            kw['section'] = s
        arg = new if rng.random() < 0.8 else list(new.items())
        o = call(p.write_configs, arg, config_file=path, **kw)
        ctx.check(o == ('ret', None), 'write failed', f'{new}: {show(o)}')
        ctx.check(new == given, 'argument changed', f'{new} {given}')
        due[s] = given
        ctx.count('sections round trips')
        o = call(p.read_configs, path, **kw)
        ctx.check(o == ('ret', given), 'section read back', f'{show(o)}, written {given}')
        after, defaults2 = raw(path)
        for k in before:
            if k != s:
                ctx.count('other sections compared')
                ctx.check({a: as_lines(b) for a, b in after.get(k, {}).items()}
                          == {a: as_lines(b) for a, b in before[k].items()},
                          'another section changed', f'{k}: {before[k]} became {after.get(k)}')
        ctx.check(set(after) == set(before) | {s}, 'sections', f'{list(before)} {list(after)}')
        if len(before) > 1:
            ctx.interesting('ini', tuple(before), s, len(given), str(given)[:60])
        for k in due:
            o = call(p.read_configs, path, k)
            ctx.check(o[0] == 'ret' and norm(o[1]) == norm(due[k]), 'section read',
                      f'{k}: {show(o)}, due {due[k]}')
        o = call(p.read_configs, path, None)
        ctx.check(o[0] == 'ret' and {k: norm(v) for k, v in o[1].items() if k != 'DEFAULT'}
                  == {k: norm(v) for k, v in due.items()}, 'all sections read', show(o)[:300])
        if rng.random() < 0.3:
            o = call(p.read_configs, path, s, None)
            ctx.check(o[0] == 'ret' and {k: as_lines(v) for k, v in o[1].items()}
                      == {k: as_lines(v) for k, v in given.items()}, 'raw section', show(o))
    # the two halves on their own
    d = section(rng, ctx)
    o = call(lambda: dict(p.postprocess_ini_section_items(dict(p.preprocess_ini_section_items(d)))))
    ctx.check(o == ('ret', d), 'processed back and forth', f'{show(o)}, due {d}')


def norm(d):
    return {k: v if isinstance(v, list) else as_lines(v) for k, v in d.items()}


# -- URLs ---------------------------------------------------------------------------------
def joins(rng, ctx):
    p = pack()
    n = rng.choice([1, 2, 2, 3, 5])
    cores = []
    parts = []
    for i in range(n):
        c = '/'.join(''.join(rng.choices('abc.:-_%?=&1é', k=rng.choice([1, 1, 2, 6])))
                     for _ in range(rng.choice([1, 1, 2])))
        if i == 0 and rng.random() < 0.4:
            c = rng.choice(['https://', 'file:///']) + c
        a, b = rng.random() < 0.4, rng.random() < 0.4
        cores.append(c)
        parts.append('/' * a + c + '/' * b)
    due = '/' * (parts[0][0] == '/') + '/'.join(cores) + '/' * (parts[-1][-1] == '/')
    if rng.random() < 0.15:  # a part that is only a slash
        i = rng.randint(0, n)
        parts.insert(i, '/')
        ctx.count('parts that are only a slash')
        due = ('/' if i == 0 and due[0] != '/' else '') + due
        due += '/' if i == n and due[-1] != '/' else ''
    o = call(p.ujoin, *parts)
    ctx.check(o == ('ret', due), 'join', f'{parts}: {show(o)}, due {due!r}')
    ctx.count('joins')
    if n > 1:
        ctx.interesting('url', tuple(parts))
    ctx.check(call(p.ujoin) == ('ret', '') and call(p.ujoin, '') == ('ret', ''), 'empty join', '')


# -- templates ------------------------------------------------------------------------------
def templates(rng, ctx):
    p = pack()
    plain = {f'p{i}': rng.choice(['v', 'a b', '', 'x/y', 7, 2.5, 'é', '100%'])
             for i in range(rng.choice([0, 1, 3]))}
    own = {f'q{i}': rng.choice(['w', '', 'fixed', 'a-b', 12, None, ['l'], True])
           for i in range(rng.choice([0, 1, 2]))}
    leaves = list(plain) + list(own)
    d = dict(own)
    depth = rng.choice([1, 2, 3, 5, 9])
    order = []
    refs = {}
    for i in range(rng.choice([1, 2, 4, depth])):
        k = f't{i}'
        usable = [x for x in order if levels(refs, x) < 9]
        pieces, fields = [], []
        for _ in range(rng.choice([0, 1, 2, 3])):
            x = rng.random()
            if x < 0.4 or not (leaves or usable):
                pieces.append(rng.choice(['/', 'lit', ' ', '.', 'x=', '%s']))
            elif x < 0.75 and leaves or not usable:
                f = rng.choice(leaves)
                v = plain.get(f, own.get(f))
                spec = ''
                if rng.random() < 0.15:
                    spec = '!r' if rng.random() < 0.5 else '!s:>6'
                pieces.append(('{' + f + spec + '}', f, spec))
                fields.append(f)
            else:
                f = rng.choice(usable[-2:])
                pieces.append(('{' + f + '}', f, ''))
                fields.append(f)
        order.append(k)
        refs[k] = fields
        d[k] = ''.join(x if isinstance(x, str) else x[0] for x in pieces)
        plain_pieces[k] = pieces
    # what it must resolve to
    values = {**plain, **own}
    for k in order:
        values[k] = ''.join(x if isinstance(x, str) else (x[0].replace(x[1], '', 1) and
                            ('{v' + x[2] + '}').format(v=values[x[1]]))
                            for x in plain_pieces[k])
    kwargs = dict(plain)
    if rng.random() < 0.3:
        for k in rng.sample(list(d), 1):
            kwargs[k] = 'ignored'  # the mapping's own version counts
    if rng.random() < 0.3:
        kwargs['unused'] = 'u'
    x = rng.random()
    wrong = None
    needed = {f for v in refs.values() for f in v} & set(plain)
    if x < 0.2 and needed:
        wrong = rng.choice(sorted(needed))
        kwargs.pop(wrong, None)
        if wrong in d:
            wrong = None
    elif x < 0.35:
        a = rng.randint(1, 3)
        for i in range(a):
            d[f'c{i}'] = rng.choice(['', 'x']) + '{c%d}' % ((i + 1) % a)
        wrong = 'circular'
    elif x < 0.4:
        d['c0'] = '{nothing_here}'
        wrong = 'nothing_here'
    shuffled = list(d.items())
    rng.shuffle(shuffled)
    d = dict(shuffled)
    given = dict(d)
    # formatting what is known leaves the other fields as they are
    for k in order[:2]:
        known = {f: v for f, v in plain.items() if rng.random() < 0.5}
        some = [x for x in plain_pieces[k] if isinstance(x, str) or not x[2]]
        text = ''.join(x if isinstance(x, str) else x[0] for x in some)
        want = ''.join(x if isinstance(x, str) else str(known.get(x[1], x[0])) for x in some)
        o = call(p.partial_formatter.format, text, **known)
        ctx.check(o == ('ret', want), 'partly formatted', f'{text!r} {known}: {show(o)}')
        ctx.count('templates partly formatted')
    ctx.describe(d=d, kwargs=kwargs, wrong=wrong)
    o = call(p.format_str_vals_of_dict, d, **kwargs)
    ctx.check(d == given, 'argument changed', f'{d} {given}')
    if wrong:
        ctx.check(o[0] == 'exc' and isinstance(o[1], ValueError), 'not refused',
                  f'{d} {kwargs}: {show(o)}')
        if wrong != 'circular':
            ctx.check(wrong in str(o[1]), 'missing field not named', f'{wrong}: {show(o)}')
        ctx.count('templates refused')
        return
    due = {k: values[k] for k in d}
    ctx.check(o[0] == 'ret' and o[1] == due and list(map(type, o[1].values()))
              == [type(due[k]) for k in o[1]], 'resolved', f'{d} {kwargs}: {show(o)}, due {due}')
    ctx.count('templates resolved')
    if any(f in refs for v in refs.values() for f in v):
        ctx.interesting('template', str(sorted(d.items(), key=str))[:200])


plain_pieces = {}


def levels(refs, k):
    return 1 + max((levels(refs, f) for f in refs.get(k, ()) if f in refs), default=0)


# -- versions ---------------------------------------------------------------------------------
class Index:
    """A package index on the loopback network."""

    def __init__(self):
        import socket

        self.sock = socket.socket()
        self.sock.bind(('127.0.0.1', 0))
        self.sock.listen(16)
        self.port = self.sock.getsockname()[1]
        self.pid = os.getpid()
        self.body = b''
        self.code = 200
        self.paths = []
        vsched._real_start(self.serve, ())

    def serve(self):
        while True:
            conn, _ = self.sock.accept()
            try:
                data = b''
                while b'\r\n\r\n' not in data:
                    part = conn.recv(65536)
                    if not part:
                        break
                    data += part
                self.paths.append(data.split(b' ')[1].decode())
                conn.sendall(b'HTTP/1.1 %d X\r\nContent-Length: %d\r\nConnection: close\r\n\r\n%s'
                             % (self.code, len(self.body), self.body))
            except OSError:
                pass
            finally:
                conn.close()


def index():
    global _server
    if _server is None or _server.pid != os.getpid():
        os.environ['no_proxy'] = '*'
        _server = Index()
    return _server


def strip0(t):
    while t and t[-1] == 0:
        t = t[:-1]
    return t


def versions(rng, ctx):
    p = pack()
    srv = index()
    seen = {}
    width = rng.choice([None, 1, 2, 3, 3, 4, 5])
    for _ in range(rng.choice([1, 2, 5, 15])):
        if seen and rng.random() < 0.6:  # differing from another release in one place
            t = list(rng.choice(list(seen.values())))
            i = rng.randrange(len(t))
            t[i] = rng.choice([0, 1, 9, 10, 100, t[i] + 1, max(0, t[i] - 1), t[i] * 10])
            if not width and rng.random() < 0.3:
                t.append(rng.randint(0, 11))
            t = tuple(t)
        else:
            t = tuple(rng.choice([0, 1, 2, 9, 10, 11, 99, 100, rng.randint(0, 30)])
                      for _ in range(width or rng.choice([1, 2, 3, 4])))
        seen.setdefault(strip0(t), t)
    releases = ['.'.join(map(str, t)) for t in seen.values()]
    rng.shuffle(releases)
    top = max(seen.values())
    unknown = rng.random() < 0.15
    srv.code = 404 if unknown else 200
    empty = not unknown and rng.random() < 0.05
    if empty:
        releases = []
    form = {r: [] for r in releases} if rng.random() < 0.8 else releases
    srv.body = json.dumps({'info': {'name': 'x'}, 'releases': form}).encode()
    srv.paths = []
    name_ = ''.join(rng.choices('abcxyz-', k=6))
    url = f'http://127.0.0.1:{srv.port}/pypi/{{package}}/json'
    first = rng.choice([None, '0.0.1', '1.0'])
    kw = {} if first is None else {'version_if_current_version_none': first}
    ctx.describe(releases=releases[:20], unknown=unknown)
    o = call(p.current_pypi_version, name_, url)
    cur = None if unknown or empty else '.'.join(map(str, top))
    ctx.check(o == ('ret', cur), 'current version', f'{releases}: {show(o)}, due {cur}')
    o = call(p.next_version_for_package, name_, url, **kw)
    due = (first or '0.0.1') if cur is None else '.'.join(map(str, top[:-1] + (top[-1] + 1,)))
    ctx.check(o == ('ret', due), 'next version', f'{releases}: {show(o)}, due {due}')
    ctx.check(srv.paths == [f'/pypi/{name_}/json'] * 2, 'package asked for', str(srv.paths))
    ctx.count('unknown packages' if unknown else 'next versions')
    for r in rng.sample(releases, min(len(releases), 3)):
        t = tuple(map(int, r.split('.')))
        due = '.'.join(map(str, t[:-1] + (t[-1] + 1,)))
        ctx.check(call(p.increment_version, r) == ('ret', due), 'incremented', r)
    if len(releases) > 1:
        ctx.interesting('versions', tuple(releases))


_ = random
