"""C21: the HTTP source sends the configured request and delivers the exact body."""
import _thread
import os
import random
import socket
import time

from lib import vsched
from lib.harness import call, show

ID = 'C21'
TECHNIQUE = 'runtime monitoring: requests recorded by a loopback server, delivered chunks compared with its bodies'
RULE = (
    'requests of 10 methods with random headers and bodies (bytes or text) against a loopback '
    'server that records what it receives and sends bodies of 0 to 200000 bytes (length given, '
    'chunked, or ended by closing; in pieces), read with every chunk size from 1 up, as bytes or '
    'decoded by 8 encodings, directly and through a stream (also while the clock stands or is set back), opened again, also after sessions left before their end; non-trivial: the '
    'body was delivered in more than one chunk'
)
ASSUMPTIONS = ['the server answers and completes its response']
QUICK = 6000
THOROUGH = 120000
MIN = {'requests': 3000, 'chunks': 20000, 'decoded bodies': 800, 'bodies split inside a character': 300,
       'reopened': 800, 'streams': 500, 'streams while the clock is set back': 100, 'text bodies sent': 200, 'None at the end': 2000,
       'empty bodies': 100, 'sessions left before their end': 300}
_server = None


class Server:
    """self.answer says what to send, self.seen what was received."""

    def __init__(self):
        self.sock = socket.socket()
        self.sock.bind(('127.0.0.1', 0))
        self.sock.listen(16)
        self.port = self.sock.getsockname()[1]
        self.pid = os.getpid()
        self.seen = []
        self.answer = []
        vsched._real_start(self.serve, ())

    def serve(self):
        while True:
            conn, _ = self.sock.accept()
            vsched._real_start(self.one, (conn, self.answer))

    def one(self, conn, answer):
        try:
            self.exchange(conn, answer)
        except OSError:
            pass
        finally:
            conn.close()

    def exchange(self, conn, answer):
        conn.settimeout(20)
        data = b''
        while b'\r\n\r\n' not in data:
            part = conn.recv(65536)
            if not part:
                return
            data += part
        head, body = data.split(b'\r\n\r\n', 1)
        lines = head.decode('latin-1').split('\r\n')
        method, path, _ = lines[0].split(' ')
        headers = {}
        for line in lines[1:]:
            k, v = line.split(':', 1)
            headers.setdefault(k.strip().lower(), []).append(v.strip())
        n = int(headers.get('content-length', ['0'])[0])
        while len(body) < n:
            part = conn.recv(65536)
            if not part:
                return
            body += part
        self.seen.append((method, path, headers, body))
        for piece in answer:
            conn.sendall(piece)
        conn.shutdown(socket.SHUT_WR)


def server():
    global _server
    if _server is None or _server.pid != os.getpid():
        os.environ['no_proxy'] = '*'
        _server = Server()
    return _server


TEXT = 'abc xyz0189\n é ü ß ñ'
WIDE = '日本語テキスト漢字かな'
EMOJI = '😀𝄞🎵'
ENCODINGS = {
    'utf-8': TEXT + WIDE + EMOJI, 'utf-16': TEXT + WIDE + EMOJI, 'utf-16-le': TEXT + WIDE + EMOJI,
    'utf-32': TEXT + EMOJI, 'latin-1': TEXT, 'ascii': 'abc xyz', 'shift_jis': 'abc ' + WIDE,
    'utf-8-sig': TEXT + WIDE,
}


def case(rng, ctx):
    from stream2py.sources.http import HTTPResponseReader

    srv = server()
    # -- what the server will send
    encoding = rng.choice(['', '', ''] + list(ENCODINGS))
    size = rng.choice([0, 1, 2, 5, 30, 300, 3000, rng.choice([20000, 200000])])
    if encoding:
        text = ''.join(rng.choices(ENCODINGS[encoding], k=min(size, 20000)))
        body = text.encode(encoding)
        due = text
    else:
        body = due = rng.randbytes(size)
    framing = rng.choice(['length', 'length', 'chunked', 'close'])
    srv.seen = []
    # -- the request
    method = rng.choice(['GET', 'GET', 'GET', 'POST', 'POST', 'PUT', 'DELETE', 'PATCH', 'OPTIONS',
                         'HEAD', 'get', 'post', 'REPORT'])
    get = method.upper() == 'GET'
    if method == 'HEAD':
        body = due = due[:0]  # no body answers it
        ctx.count('answers without a body')
    srv.answer = answer(rng, body, framing)
    headers = {}
    for _ in range(rng.choice([0, 1, 3])):
        headers[rng.choice(['X-Test', 'Authorization', 'Accept', 'Content-Type', 'x-lower',
                            'User-Agent'])] = rng.choice(['a', 'b c', 'application/json', '1'])
    kw = {}
    if method != 'GET' or rng.random() < 0.5:
        kw['method'] = method
    if headers or rng.random() < 0.3:
        kw['headers'] = dict(headers) or rng.choice([None, {}])
    sent = b''
    if rng.random() < 0.6:
        sent = rng.choice([b'', b'{"a": 1}', rng.randbytes(50), 'text', 'téxt 日本', '{"q": [1, 2]}'])
        kw['body'] = sent
        if isinstance(sent, str):
            if not get:
                ctx.count('text bodies sent')
            sent = sent.encode()
    chunk = rng.choice([None, None, 1, 2, 3, 7, 100, 4096, size or 1, size + 5, 'none', 'tuple'])
    if isinstance(chunk, int) and chunk < len(body) / 600:
        chunk += len(body) // 600
    if chunk == 'none':
        kw['response_read_args'] = None
    elif chunk == 'tuple':
        kw['response_read_args'] = rng.choice([(), (rng.randint(1, 50) + len(body) // 500,)])
    elif chunk is not None:
        kw['response_read_args'] = rng.choice([chunk, (chunk,)])
    if encoding:
        kw['encoding'] = encoding
        ctx.count('decoded bodies')
    path = '/' + ''.join(rng.choices('abc/xyz', k=rng.randint(0, 8))) + rng.choice(['', '?q=1&r=a%20b'])
    url = f'http://127.0.0.1:{srv.port}{path}'
    per = kw.get('response_read_args') or 10 ** 9
    per = per[0] if isinstance(per, tuple) else per
    through = rng.random() < 0.5 and len(body) / per < 60
    ctx.describe(method=method, encoding=encoding, bytes=len(body), framing=framing, chunk=chunk,
                 options=kw, path=path, stream=through)
    if not body:
        ctx.count('empty bodies')
    o = call(HTTPResponseReader, url, **kw)
    ctx.check(o[0] == 'ret', 'construction failed', f'{kw}', show(o))
    src = o[1]
    ctx.check(not srv.seen, 'request before open', '')
    check_info(ctx, src.info, url, 0, method, headers, encoding, 'before open')
    want = dict(method=method, path=path, headers=headers,
                body=b'' if get else sent)
    for k in range(rng.choice([1, 1, 2, 3])):
        srv.answer = answer(rng, body, framing)
        if rng.random() < 0.25:
            # a session left before its end leaves nothing behind for the next one
            left(rng, ctx, src, due, url, method, headers, encoding)
            ctx.check(len(srv.seen) == 1, 'requests sent', f'{len(srv.seen)} after an open')
            check_request(ctx, srv.seen.pop(), want)
        if through:
            chunks = by_stream(rng, ctx, src, url, len(body), method, headers, encoding)
        else:
            chunks = direct(rng, ctx, src, url, len(body), method, headers, encoding)
        ctx.count('chunks', len(chunks))
        ctx.check(len(srv.seen) == 1, 'requests sent', f'{len(srv.seen)} after one open')
        ctx.count('requests')
        if k:
            ctx.count('reopened')
        check_request(ctx, srv.seen.pop(), want)
        joined = (b'' if not encoding else '').join(chunks)
        ctx.check(joined == due, 'body', f'{len(joined)} of {len(due)} '
                  f'{"characters" if encoding else "bytes"}: {joined[:60]!r}, due {due[:60]!r}')
        sizes = kw.get('response_read_args')
        if encoding in ('utf-8', 'utf-16', 'shift_jis', 'utf-8-sig') and sizes and len(chunks) > 1:
            ctx.count('bodies split inside a character')
        if len(chunks) > 1:
            ctx.interesting(method, encoding, len(body), framing, str(sizes), tuple(sorted(kw)))


def answer(rng, body, framing):
    head = b'HTTP/1.1 200 OK\r\nContent-Type: application/octet-stream\r\nConnection: close\r\n'
    pieces = []
    cut = rng.choice([1 << 20, max(1, len(body) // 3), max(1, len(body) // 50)])
    parts = [body[i:i + cut] for i in range(0, len(body), cut)]
    if framing == 'length':
        pieces = [head + b'Content-Length: %d\r\n\r\n' % len(body)] + parts
    elif framing == 'close':
        pieces = [head + b'\r\n'] + parts
    else:
        pieces = [head + b'Transfer-Encoding: chunked\r\n\r\n']
        pieces += [b'%x\r\n%s\r\n' % (len(p), p) for p in parts] + [b'0\r\n\r\n']
    return pieces


def check_info(ctx, info, url, n, method, headers, encoding, when):
    ctx.check(isinstance(info, dict) and info.get('url') == url, 'info url', f'{info} {when}')
    ctx.check(info.get('n_bytes_read') == n, 'bytes counted', f'{info}, due {n}, {when}')
    kw = info.get('init_kwargs') or {}
    ctx.check(kw.get('method') == method and (kw.get('headers') or {}) == headers
              and kw.get('encoding') == encoding, 'info arguments', f'{info}')


def check_request(ctx, got, want):
    method, path, headers, body = got
    ctx.check(method == want['method'], 'method sent', f'{method}, configured {want["method"]}')
    ctx.check(path == want['path'], 'path sent', f'{path}, configured {want["path"]}')
    for k, v in want['headers'].items():
        ctx.check(headers.get(k.lower()) == [v], 'header sent',
                  f'{k}: {headers.get(k.lower())}, configured {v}')
    ctx.check(body == want['body'], 'body sent', f'{body!r}, configured {want["body"]!r}')


def take(ctx, x, encoding):
    ctx.check(isinstance(x, tuple) and len(x) == 2, 'item shape', repr(x)[:80])
    ctx.check(isinstance(x[1], str if encoding else bytes), 'item type', repr(x)[:80])
    ctx.check(isinstance(x[0], float), 'timestamp', repr(x[0]))
    return x[1]


def direct(rng, ctx, src, url, n, method, headers, encoding):
    o = call(src.open)
    ctx.check(o == ('ret', None), 'open failed', show(o))
    chunks = []
    done = 0
    for _ in range(n + 5):
        before = vsched._real_time()
        o = call(src.read)
        ctx.check(o[0] == 'ret', 'read failed', show(o))
        if o[1] is None:
            break
        c = take(ctx, o[1], encoding)
        ctx.check(before - 1 <= o[1][0] <= vsched._real_time() + 1, 'timestamp', str(o[1][0]))
        chunks.append(c)
        if not encoding:
            done += len(c)
            ctx.check(src.info['n_bytes_read'] == done, 'bytes counted',
                      f'{src.info["n_bytes_read"]} after {done} bytes')
    else:
        ctx.fail('no end', f'{len(chunks)} chunks from {n} bytes, the last {chunks[-1]!r}')
    for _ in range(rng.choice([0, 1, 3])):
        o = call(src.read)
        ctx.check(o == ('ret', None), 'data after the end', show(o)[:80])
        ctx.count('None at the end')
    check_info(ctx, src.info, url, n, method, headers, encoding, 'at the end')
    for _ in range(rng.choice([1, 1, 2])):
        o = call(src.close)
        ctx.check(o == ('ret', None), 'close failed', show(o))
    return chunks


def left(rng, ctx, src, due, url, method, headers, encoding):
    o = call(src.open)
    ctx.check(o == ('ret', None), 'open failed', show(o))
    check_info(ctx, src.info, url, 0, method, headers, encoding, 'once opened')
    got = due[:0]
    for _ in range(rng.choice([0, 1, 1, 2, 5])):
        o = call(src.read)
        ctx.check(o[0] == 'ret', 'read failed', show(o))
        if o[1] is None:
            break
        got += take(ctx, o[1], encoding)
    ctx.check(due[:len(got)] == got, 'body', f'{got[:60]!r} begins, due {due[:60]!r}')
    o = call(src.close)
    ctx.check(o == ('ret', None), 'close failed', show(o))
    ctx.count('sessions left before their end', len(got) < len(due))


def by_stream(rng, ctx, src, url, n, method, headers, encoding):
    from stream2py import StreamBuffer

    s = ctx.sched(random.Random(rng.getrandbits(60)), seq=True)
    chunks = []

    back = rng.random() < 0.2  # the system clock stands, and is set back
    old = time.time
    t = [old()]

    def unsteady():
        if rng.random() < 0.2:
            t[0] -= rng.choice([1, 0.001, 3600])
        return t[0]

    def main(s):
        if back:
            ctx.count('streams while the clock is set back')
            time.time = unsteady
        try:
            stream_it(s)
        finally:
            time.time = old

    def stream_it(s):
        with StreamBuffer(src, maxlen=None, sleep_time_on_read_none_s=0.05) as stream:
            r = stream.mk_reader(ignore_no_item_found=True)
            idle = 0
            while idle < 20:
                x = r.read()
                if x is None:
                    idle += 1
                    time.sleep(0.05)
                    continue
                idle = 0
                chunks.append(take(ctx, x, encoding))
                ctx.check(len(chunks) < n + 5, 'no end', f'{len(chunks)} items from {n} bytes')
            ctx.check(stream.is_running, 'the stream ended', '')
        time.sleep(1)
        ctx.count('streams')

    ctx.run(s, main, allow=())
    return chunks


_ = _thread
