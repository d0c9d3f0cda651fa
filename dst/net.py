"""Simulated TCP/HTTP network.

The real client stack (requests, urllib3, http.client) runs on top of ``SimSocket``; servers are WSGI applications run
by ``Server`` in a task of their own per delivered request.  Faults are planned per (call, attempt) by the case and
applied to byte streams.
"""
import base64
import io
import re
import socket

from .seams import STATE

PAGES = {
    'html': (b'text/html', b'<html><head><title>502 Bad Gateway</title></head><body><center><h1>502 Bad Gateway</h1>'
                           b'</center><hr></body></html>'),
    'xhtml': (b'application/xhtml+xml', b'<?xml version="1.0"?><html xmlns="http://www.w3.org/1999/xhtml"><head><title>E'
                                        b'</title></head><body><p>The service is unavailable.</p></body></html>'),
    'empty': (b'text/plain', b''),
    'json': (b'application/json', b'{"error": "upstream timed out"}'),
    'text': (b'text/plain', b'upstream connect error or disconnect/reset before headers'),
    'xml': (b'text/xml', b'<error><code>503</code><message>unavailable</message></error>'),
    'loop': (b'text/html', b'<!DOCTYPE html><html><body><p>proxy loop<br>detected</body></html>'),
}
REASON = {200: 'OK', 400: 'Bad Request', 404: 'Not Found', 500: 'Internal Server Error', 502: 'Bad Gateway',
          503: 'Service Unavailable', 504: 'Gateway Timeout', 403: 'Forbidden', 401: 'Unauthorized', 408: 'Request Timeout',
          413: 'Payload Too Large', 429: 'Too Many Requests'}


class Stream:
    """One direction of a connection: bytes that have arrived, then perhaps an end (clean or reset)."""

    def __init__(self):
        self.buf = bytearray()
        self.end = None    # None | 'eof' | 'rst'

    def feed(self, data):
        if self.end is None:
            self.buf += data

    def finish(self, how):
        if self.end is None:
            self.end = how

    def ready(self):
        return bool(self.buf) or self.end is not None


class SimSocket:
    def __init__(self, conn):
        self.conn = conn
        self.family, self.type, self.proto = socket.AF_INET, socket.SOCK_STREAM, 6
        self._closed = False
        self._refs = 0
        self._timeout = None

    def settimeout(self, t):
        self._timeout = t

    def gettimeout(self):
        return self._timeout

    def setblocking(self, b):
        pass

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def getpeername(self):
        return (self.conn.host, self.conn.port)

    def getsockname(self):
        return ('10.0.0.1', 40000)

    def fileno(self):
        return -1 if self._closed else 1_000_000 + self.conn.cid

    def peer_closed(self):
        return self.conn.s2c.end is not None

    def sendall(self, data, flags=0):
        self.conn.client_send(bytes(data))

    def send(self, data, flags=0):
        self.conn.client_send(bytes(data))
        return len(data)

    def recv_into(self, buf, nbytes=None, flags=0):
        data = self.recv(len(buf))
        buf[:len(data)] = data
        return len(data)

    def recv(self, n, flags=0):
        return self.conn.client_recv(n, self._timeout)

    def makefile(self, mode='r', buffering=None, **k):
        self._refs += 1
        raw = _Raw(self)
        return io.BufferedReader(raw) if 'r' in mode else io.BufferedWriter(raw)

    def shutdown(self, how):
        self.conn.client_close()

    def close(self):
        if not self._closed:
            self._closed = True
            self.conn.client_close()

    def detach(self):
        self._closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class _Raw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def writable(self):
        return True

    def readinto(self, b):
        return self.sock.recv_into(b)

    def write(self, b):
        self.sock.sendall(bytes(b))
        return len(b)


class Conn:
    def __init__(self, net, cid, host, port, fault):
        self.net, self.cid, self.host, self.port = net, cid, host, port
        self.c2s, self.s2c = Stream(), Stream()
        self.fault = fault or {}
        self.sent = 0            # request body bytes the client put on the wire
        self.raw = bytearray()   # everything the client sent
        self.delivered = False
        self.client_gone = False
        self.srv_reset = False
        self.headlen = None
        self.call = None
        self.req_started = False
        self.replies = 0
        self.nreq = 0

    # ---- client side
    def client_send(self, data):
        net, f = self.net, self.fault
        k = f.get('kind')
        net.sim.retrace()
        if self.s2c.end == 'rst' or self.srv_reset:
            raise BrokenPipeError(32, 'Broken pipe')
        first = not self.raw
        self.raw += data
        if first:
            net.transmitted(self)
        if k == 'rst_on_send':
            # the peer resets while the request is being written; nothing of it is processed
            if net.fire(self):
                self.srv_reset = True
                self.s2c.finish('rst')
                raise ConnectionResetError(104, 'Connection reset by peer')
        self._complete_check()
        net.sim.point('send')

    def _complete_check(self):
        # deliver once the request is complete on the wire (head + declared body)
        while True:
            i = self.raw.find(b'\r\n\r\n', self._reqstart())
            if i < 0:
                return
            head = bytes(self.raw[self._reqstart():i])
            m = re.search(rb'(?i)\r\ncontent-length:\s*(\d+)', head)
            n = int(m.group(1)) if m else 0
            if re.search(rb'(?i)\r\ntransfer-encoding:\s*chunked', head):
                j = self.raw.find(b'0\r\n\r\n', i + 4)
                if j < 0:
                    return
                body = _dechunk(bytes(self.raw[i + 4:j + 5]))
                end = j + 5
            else:
                if len(self.raw) < i + 4 + n:
                    return
                end = i + 4 + n
                body = bytes(self.raw[i + 4:end])
            self._start = end
            self.nreq += 1
            if self.nreq > 1:
                self.net.transmitted(self)
            self.net.request_on_wire(self, head, body)

    _start = 0

    def _reqstart(self):
        return self._start

    def client_recv(self, n, timeout=None):
        sim = self.net.sim
        sim.retrace()
        if sim.current() is None:
            raise RuntimeError('recv outside of a simulated task')
        dl = None if timeout is None else self.net.now() + timeout
        if not self.s2c.ready():
            if not sim.block_until(self.s2c.ready, dl, f'data from {self.host}'):
                raise TimeoutError('timed out')
        if self.s2c.buf:
            m = min(n, len(self.s2c.buf), self.net.segment)
            out = bytes(self.s2c.buf[:m])
            del self.s2c.buf[:m]
            return out
        if self.s2c.end == 'rst':
            raise ConnectionResetError(104, 'Connection reset by peer')
        return b''

    def client_close(self):
        self.client_gone = True
        self.c2s.finish('eof')


def _dechunk(b):
    out, i = b'', 0
    while i < len(b):
        j = b.find(b'\r\n', i)
        n = int(b[i:j].split(b';')[0] or b'0', 16)
        if not n:
            break
        out += b[j + 2:j + 2 + n]
        i = j + 2 + n + 2
    return out


class Net:
    """``plan(call, attempt, host) -> fault dict or None``."""

    def __init__(self, sim, plan=None, latency=0.001, segment=65536):
        self.sim = sim
        self.plan = plan or (lambda call, attempt, host: None)
        self.hosts = {}
        self.conns = []
        self.fired = {}
        self.latency = latency
        self.segment = max(1, segment)
        self.unknown = []
        self.wire = []           # (call, cid, head, body) of every request the clients transmitted
        self.tx = []             # call ids, one per transmission started
        self.delivered = []      # (call, cid, body) of every request handed to a server
        self.down = set()        # hosts whose process is dead at the moment
        self.part = {}           # host -> simulated time its link heals

    def now(self):
        from .seams import CLK
        return CLK.t

    def knows(self, host):
        return any(h == host or h.split(':')[0] == host for h in self.hosts)

    def note_unknown(self, host, port):
        self.unknown.append((host, port))

    def serve(self, host, handler):
        """handler(conn, head, body, how): run in a task of its own per delivered request."""
        self.hosts[host] = handler

    def lookup(self, host, port):
        return self.hosts.get(f'{host}:{port}') or (self.hosts.get(host))

    def fire(self, conn):
        """Count a fault as injected (once per connection)."""
        if conn.fault.get('_fired'):
            return True
        conn.fault['_fired'] = True
        k = conn.fault['kind']
        self.fired[k] = self.fired.get(k, 0) + 1
        self.sim.ev('fault', k, conn.cid)
        return True

    def connect(self, address):
        host, port = address[0], address[1]
        t = self.sim.current()
        self.sim.retrace()
        call = t.call if t is not None else None
        att = 0
        if t is not None:
            att = t.attempt
            t.attempt += 1
        h = self.lookup(host, port)
        if h is None:
            self.unknown.append((host, port))
            STATE.escapes.append(f'connect {host}:{port}')
            raise ConnectionRefusedError(111, 'Connection refused')
        fault = self.plan(call, att, host)
        conn = Conn(self, len(self.conns), host, port, dict(fault) if fault else None)
        conn.call = call
        self.conns.append(conn)
        self.sim.ev('connect', conn.cid, host, call)
        self.sim.point('connect')
        if host in self.down:
            self.fired['connect_while_down'] = self.fired.get('connect_while_down', 0) + 1
            raise ConnectionRefusedError(111, 'Connection refused')
        k = conn.fault.get('kind')
        if k == 'refuse':
            self.fire(conn)
            raise ConnectionRefusedError(111, 'Connection refused')
        if k == 'dns':
            self.fire(conn)
            raise socket.gaierror(-3, 'Temporary failure in name resolution')
        if k == 'unreachable':
            self.fire(conn)
            raise OSError(113, 'No route to host')
        return SimSocket(conn)

    def transmitted(self, conn):
        self.tx.append(conn.call)
        self.sim.ev('tx', conn.cid, conn.call)

    # ---- the request is completely on the wire: decide what the network makes of it
    def request_on_wire(self, conn, head, body):
        self.wire.append((conn.call, conn.cid, head, body))
        f = conn.fault
        k = f.get('kind')
        lat = self.latency + f.get('delay', 0.0)
        if f.get('delay'):
            self.fired['delay'] = self.fired.get('delay', 0) + 1
        if k == 'req_lost':
            self.fire(conn)
            self.sim.after(lat, lambda: conn.s2c.finish(f.get('end', 'rst')))
            return
        if k == 'gw' and not f.get('after'):
            self.fire(conn)
            self.sim.after(lat, lambda: self.page(conn))
            return
        if k == 'req_cut':
            self.fire(conn)
            n = min(f['at'], len(body) - 1) if f['at'] >= 0 else max(0, len(body) + f['at'])
            end = f.get('end', 'eof')
            self.sim.after(lat, lambda: self.deliver(conn, head, body[:n], end))
            self.sim.after(lat * 2, lambda: conn.s2c.finish('rst'))
            return
        if k == 'req_damage':
            self.fire(conn)
            body = damage(body, f)
            self.sim.after(lat, lambda: self.deliver(conn, head, body, None, damaged=True))
            return
        self.sim.after(lat, lambda: self.deliver(conn, head, body, None))
        if k == 'dup':
            self.fire(conn)
            self.sim.after(lat + f.get('gap', 0.0), lambda: self.deliver(conn, head, body, None, dup=True))

    def deliver(self, conn, head, body, end, dup=False, damaged=False):
        h = self.lookup(conn.host, conn.port)
        if conn.host in self.down or conn.srv_reset:
            conn.s2c.finish('rst')
            return
        self.delivered.append((conn.call, conn.cid, body, 'cut' if end else 'damaged' if damaged else 'dup' if dup else 'ok'))
        self.sim.ev('deliver', conn.cid, conn.call, len(body), end or '')
        h(conn, head, body, end, dup)

    def crash(self, host):
        """The process behind host dies: every open connection to it is reset."""
        self.down.add(host)
        self.fired['server_crash'] = self.fired.get('server_crash', 0) + 1
        self.sim.ev('crash', host)
        for c in self.conns:
            if c.host == host:
                c.srv_reset = True
                c.s2c.finish('rst')

    def page(self, conn):
        f = conn.fault
        ct, body = PAGES[f.get('page', 'html')] if 'body' not in f else (f['ct'].encode(), base64.b64decode(f['body']))
        st = f.get('status', 502)
        conn.s2c.feed(b'HTTP/1.1 %d %s\r\nContent-Type: %s\r\nContent-Length: %d\r\nConnection: close\r\n\r\n' % (
            st, REASON.get(st, 'Error').encode(), ct, len(body)) + body)
        conn.s2c.finish('eof')

    # ---- the server answered: decide what reaches the client
    def reply(self, conn, head, body, framing, dup=False):
        f = conn.fault
        k = f.get('kind')
        conn.replies += 1
        if conn.srv_reset:
            return
        want_second = k == 'dup' and f.get('answer', 0) == 1
        if k == 'dup' and (dup != want_second):
            self.sim.ev('reply-dropped', conn.cid)
            return
        lat = self.latency + f.get('rdelay', 0.0)
        if f.get('rdelay'):
            self.fired['rdelay'] = self.fired.get('rdelay', 0) + 1
        if k == 'resp_lost':
            self.fire(conn)
            self.sim.after(lat, lambda: conn.s2c.finish(f.get('end', 'rst')))
            return
        if k == 'gw':
            self.fire(conn)
            self.sim.after(lat, lambda: self.page(conn))
            return
        if k == 'resp_damage':
            self.fire(conn)
            body = damage(body, f)
        if framing == 'chunked':
            head = head + b'Transfer-Encoding: chunked\r\n\r\n'
            out, i, sz = b'', 0, max(1, len(body) // 3)
            while i < len(body):
                c = body[i:i + sz]
                out += b'%x\r\n' % len(c) + c + b'\r\n'
                i += sz
            payload = head + out + b'0\r\n\r\n'
        elif framing == 'close':
            payload = head + b'Connection: close\r\n\r\n' + body
        else:
            payload = head + b'Content-Length: %d\r\n\r\n' % len(body) + body
        end = 'eof'
        if k == 'resp_cut':
            # inside the body, strictly before its last byte; or anywhere in the head
            hl = len(payload) - len(body) if framing != 'chunked' else len(head)
            at = f['at']
            self.fire(conn)
            if f.get('part') == 'head':
                cut = at % max(1, hl)
            else:
                last = body.rstrip()
                cut = hl + at % max(1, len(last) - 1 if framing != 'chunked' else len(payload) - hl - 8)
            payload = payload[:cut]
            end = f.get('end', 'eof')
        self.sim.ev('reply', conn.cid, len(payload))
        self.sim.after(lat, lambda: (conn.s2c.feed(payload), conn.s2c.finish(end)))


def damage(body, f):
    """Corruptions an XML parser is certain to detect, at a position chosen by the case."""
    if not body:
        return b'\x00'
    how = f.get('how', 'nul')
    at = f.get('at', 0)
    i = at % max(1, len(body.rstrip()) - 1)
    if how == 'nul':
        return body[:i] + b'\x00' + body[i:]
    if how == 'zero_tail':      # a block of zeroes where data should be (lost write in a proxy's buffer)
        return body[:i] + b'\x00' * (len(body) - i)
    if how == 'drop_lt':        # one '<' lost
        pos = [j for j, c in enumerate(body) if c == 60 and body[j:j + 2] == b'</']
        return body[:pos[at % len(pos)]] + body[pos[at % len(pos)] + 1:] if pos else b'\x00'
    if how == 'badutf8':
        return body[:i] + b'\xff\xfe\xff' + body[i:]
    if how == 'gzip':
        return b'\x1f\x8b\x08\x00' + body[::-1]
    raise ValueError(how)
