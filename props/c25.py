"""The HTTP source against a loopback server."""
import os
import socket
import threading
import time

from hypothesis import strategies as st

import gen
import vworld as V
from harness import Violation

ID = 'C25'
RULE = (
    'A case is a request (method, headers, body), a response (bytes, or text in an encoding; framed by length, in '
    'chunks or by closing; sent in pieces), the read size, and the number of sessions of the source, read directly, '
    'iterated, or through a stream buffer. Non-trivial if a body of at least 2 bytes came in at least 2 reads.'
)
ASSUMPTIONS = ['sockets on the loopback interface work']
CASES = {'quick': 5000, 'thorough': 60000}

ENCODINGS = ['utf-8', 'utf-16', 'utf-32-le', 'latin-1', 'shift_jis', 'utf-8-sig', 'gb18030']
# what any client sends by itself
USUAL = {
    'host', 'user-agent', 'connection', 'accept', 'accept-encoding', 'accept-language', 'content-length',
    'content-type', 'transfer-encoding', 'cache-control', 'date',
}
METHODS = ['GET', 'GET', 'POST', 'PUT', 'DELETE', 'PATCH', 'OPTIONS']
CHARS = {
    'latin-1': 'aZ 09\n\xe9\xff\x80\xfc',
    'shift_jis': 'aZ 09\n\u65e5\u672c\u8a9e\uff71',
    None: 'aZ 09\r\n\xe9\u0416\u65e5\u20ac\U0001f600\U00010348\u0301',
}
CHARS['gb18030'] = CHARS[None]


@st.composite
def strategy(draw, tier):
    enc = draw(st.sampled_from([None, None] + ENCODINGS))
    big = 60 if tier == 'quick' else 400
    if enc is None:
        body = {'hex': draw(gen.weighted((3, st.binary(max_size=big)), (1, st.binary(max_size=6)))).hex()}
        if draw(st.integers(0, 5)) == 0:
            body['times'] = draw(st.sampled_from([7, 200]))
    else:
        body = {'text': draw(st.text(alphabet=CHARS.get(enc, CHARS[None]), max_size=big))}
    method = draw(st.sampled_from(METHODS))
    return {
        'enc': enc,
        'body': body,
        'framing': draw(st.sampled_from(['length', 'chunked', 'close'])),
        'pieces': draw(st.lists(st.integers(1, 20), max_size=5)),
        'size': draw(gen.weighted((1, st.none()), (4, st.integers(1, 9)), (2, st.integers(1, 80)), (1, st.just(100_000)))),
        'size_form': draw(st.sampled_from(['int', 'tuple'])),
        'method': method,
        'headers': draw(
            st.one_of(
                st.none(),
                st.dictionaries(
                    st.sampled_from(['X-Test', 'Accept', 'User-agent', 'Authorization', 'X-other', 'Content-type']),
                    st.sampled_from(['1', 'text/plain', 'token abc', 'a;b=c']),
                    max_size=3,
                ),
            )
        ),
        'send': draw(
            st.one_of(
                st.none(),
                st.text(alphabet='abc {}"\xe9\u65e5', max_size=30).map(lambda t: {'text': t}),
                st.binary(max_size=30).map(lambda b: {'hex': b.hex()}),
            )
        ),
        'sessions': draw(
            st.lists(
                st.tuples(st.sampled_from(['direct', 'direct', 'with', 'iterate', 'buffer']), st.sampled_from([None, None, 1, 3])).map(list),
                min_size=1,
                max_size=3,
            )
        ),
    }


class Server:
    """Answers every request on the loopback interface with the response that is set; records requests."""

    def __init__(self):
        self.sock = socket.socket()
        self.sock.settimeout(None)
        self.sock.bind(('127.0.0.1', 0))
        self.sock.listen(32)
        self.port = self.sock.getsockname()[1]
        self.requests = []
        self.payload = b''
        threading.Thread(target=self.serve, daemon=True).start()

    def serve(self):
        while True:
            conn, _ = self.sock.accept()
            threading.Thread(target=self.serve_one, args=(conn, self.payload), daemon=True).start()

    def serve_one(self, conn, payload):
        left = threading.Event()
        try:
            conn.settimeout(120)
            self.answer(conn, payload, left)
        except OSError:
            pass  # the client went away
        finally:
            left.set()
            conn.close()

    def answer(self, conn, payload, left):
        conn.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        data = b''
        while b'\r\n\r\n' not in data:
            more = conn.recv(65536)
            if not more:
                return
            data += more
        head, _, rest = data.partition(b'\r\n\r\n')
        lines = head.decode('latin-1').split('\r\n')
        headers = {}
        for line in lines[1:]:
            k, _, v = line.partition(':')
            headers[k.strip().lower()] = v.strip()
        n = int(headers.get('content-length', 0))
        while len(rest) < n:
            more = conn.recv(65536)
            if not more:
                break
            rest += more
        self.requests.append((lines[0], headers, rest, left))
        for piece in payload:
            conn.sendall(piece)
        conn.shutdown(socket.SHUT_WR)
        # wait for the client to finish, so that nothing that was sent gets lost
        while conn.recv(65536):
            pass


os.environ['no_proxy'] = '*'  # the server is on this machine
SERVER = None


def framed(body, framing, cuts):
    parts, i = [], 0
    for c in cuts:
        if i < len(body):
            parts.append(body[i : i + c])
            i += c
    if i < len(body):
        parts.append(body[i:])
    head = b'HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\n'
    if framing == 'length':
        return [head + b'Content-Length: %d\r\n\r\n' % len(body)] + parts
    if framing == 'close':
        return [head + b'Connection: close\r\n\r\n'] + parts
    return [head + b'Transfer-Encoding: chunked\r\n\r\n'] + [b'%x\r\n%s\r\n' % (len(p), p) for p in parts] + [b'0\r\n\r\n']


def run(case, rec):
    global SERVER
    from stream2py.sources.http import HTTPResponseReader

    if SERVER is None:
        socket.setdefaulttimeout(60)  # a source that waits for nothing is a failure, not a hang
        SERVER = Server()
    enc = case['enc']
    if enc is None:
        raw = bytes.fromhex(case['body']['hex']) * case['body'].get('times', 1)
        content = raw
    else:
        content = case['body']['text']
        raw = content.encode(enc)
    SERVER.payload = framed(raw, case['framing'], case['pieces'])
    SERVER.requests = []
    url = f'http://127.0.0.1:{SERVER.port}/some/path?q=1'
    send = case['send']
    kw = {}
    if send is not None:
        kw['body'] = send['text'] if 'text' in send else bytes.fromhex(send['hex'])
    sent = b'' if send is None or case['method'] == 'GET' else (
        send['text'].encode('utf-8') if 'text' in send else bytes.fromhex(send['hex'])
    )
    if case['method'] != 'GET' or send:
        kw['method'] = case['method']
    if case['headers'] is not None:
        kw['headers'] = dict(case['headers'])
    if enc:
        kw['encoding'] = enc
    if case['size'] is not None:
        kw['response_read_args'] = case['size'] if case['size_form'] == 'int' else (case['size'],)
    src = HTTPResponseReader(url, **kw)
    if SERVER.requests:
        raise Violation('a request is sent before the source is opened')
    stats = dict(reads=0, partial=0, ended=0, buffers=0)
    empty = content[:0]

    def check_info(got, done):
        info = src.info
        n = info['n_bytes_read']
        if info['url'] != url:
            raise Violation(f'info has url {info["url"]}')
        settings = info['init_kwargs']
        if (
            settings['method'] != kw.get('method', 'GET')
            or settings['headers'] != (case['headers'] or {})
            or settings['body'] != kw.get('body', '')
            or settings['encoding'] != kw.get('encoding', '')
        ):
            raise Violation(f'info has settings {settings}, given were {kw}')
        if done and n != len(raw) or enc is None and n != len(got):
            raise Violation(f'n_bytes_read is {n} after {len(got)} of {len(content)} (body of {len(raw)} bytes, ended {done})')

    def check_chunk(chunk, got):
        if type(chunk) is not type(content):
            raise Violation(f'a chunk is {chunk!r}')
        if not chunk:
            raise Violation(f'an empty chunk after {got!r} of {content!r}')
        if case['size'] is not None and len(chunk) > case['size'] + (enc is not None):
            raise Violation(f'a chunk of {len(chunk)} was read with size {case["size"]}')
        if not content.startswith(got + chunk):
            raise Violation(f'got {got + chunk!r} of the response {content!r}')
        return got + chunk

    def direct(limit):
        got, n = empty, 0
        while limit is None or n < limit:
            t0 = time.time()
            x = src.read()
            t1 = time.time()
            if x is None:
                if got != content:
                    raise Violation(f'the end came after {got!r} of {content!r}')
                for _ in range(2):
                    if src.read() is not None:
                        raise Violation('data after the end')
                check_info(got, True)
                stats['ended'] += 1
                return
            ts, chunk = x
            if not t0 - 1e-3 <= ts <= t1 + 1e-3:
                raise Violation(f'timestamp {ts} of a chunk read between {t0} and {t1}')
            got = check_chunk(chunk, got)
            n += 1
            stats['reads'] += 1
            check_info(got, False)
        stats['partial'] += 1

    def iterate(limit):
        got, n = empty, 0
        if not content:
            return
        for ts, chunk in src:
            got = check_chunk(chunk, got)
            n += 1
            stats['reads'] += 1
            if n == limit or got == content:
                return

    def buffered():
        from stream2py import StreamBuffer

        def main():
            buf = StreamBuffer(src, maxlen=None, sleep_time_on_read_none_s=0.5)
            with buf:
                for _ in range(400):
                    n = src.info['n_bytes_read']
                    V.vsleep(1)
                    if src.info['n_bytes_read'] == n:
                        break
                r = buf.mk_reader()
                got = empty
                while True:
                    x = r.read(ignore_no_item_found=True)
                    if x is None:
                        break
                    got = check_chunk(x[1], got)
                    stats['reads'] += 1
                if got != content:
                    raise Violation(f'the buffer has {got!r} of {content!r}')
                if not buf.is_running:
                    raise Violation('the stream has stopped by itself')
            stats['buffers'] += 1

        V.Scheduler({'gran': 'sync'}, max_steps=3_000_000, max_time=1e6).run(main)

    for i, (how, limit) in enumerate(case['sessions']):
        if how == 'buffer' and len(raw) // (case['size'] or 10**6) > 400:
            how = 'direct'
        if how == 'buffer':
            buffered()
        elif how == 'with':
            with src:
                direct(limit)
        else:
            src.open()
            try:
                if src.info['n_bytes_read'] != 0:
                    raise Violation(f'n_bytes_read is {src.info["n_bytes_read"]} after opening')
                direct(limit) if how == 'direct' else iterate(limit)
            finally:
                src.close()
        if len(SERVER.requests) != i + 1:
            raise Violation(f'{len(SERVER.requests)} requests were sent in {i + 1} sessions')
        line, headers, body, left = SERVER.requests[-1]
        if not left.wait(20):
            raise Violation('the connection is still open after the source was closed')
        if line.split(' ')[:2] != [kw.get('method', 'GET'), '/some/path?q=1']:
            raise Violation(f'the request is {line!r}, configured is {kw.get("method", "GET")}')
        for k, v in (case['headers'] or {}).items():
            if headers.get(k.lower()) != v:
                raise Violation(f'header {k} of the request is {headers.get(k.lower())!r}, configured is {v!r}')
        extra = set(headers) - {k.lower() for k in case['headers'] or ()} - USUAL
        if extra:
            raise Violation(f'the request of session {i} has the headers {sorted(extra)}, which nobody configured')
        if body != sent:
            raise Violation(f'the body of the request is {body!r}, configured is {sent!r}')
    rec.label(*[k for k, v in stats.items() if v], case['framing'], enc or 'bytes', case['method'])
    rec.nontrivial = stats['reads'] >= 2 and len(raw) >= 2
