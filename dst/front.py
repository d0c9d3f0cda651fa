"""Simulated WSGI server and the front ends it can run."""
import io
import re

from .net import REASON  # noqa: F401
from .seams import STATE


class ClientGone(OSError):
    pass


class SimInput(io.RawIOBase):
    """wsgi.input: the request body as the network delivered it (possibly in pieces, possibly cut)."""

    def __init__(self, sim, body, end, pieces, declared):
        self.sim, self.body, self.end, self.pos, self.declared = sim, body, end, 0, declared
        self.pieces = pieces

    def readable(self):
        return True

    def _take(self, n):
        if self.pieces:
            self.sim.point('read')
        if self.pos >= len(self.body) and self.end == 'rst' and self.pos < self.declared:
            raise ConnectionResetError(104, 'Connection reset by peer')
        out = self.body[self.pos:self.pos + n]
        self.pos += len(out)
        return out

    def read(self, n=-1):
        # PEP 3333 servers block until n bytes are there or the client is gone
        if n is None or n < 0:
            n = max(0, self.declared - self.pos)
        n = min(n, self.declared - self.pos)
        out = b''
        while len(out) < n:
            c = self._take(min(n - len(out), self.pieces or n))
            if not c:
                break
            out += c
        if len(out) < n and self.end == 'rst':
            raise ConnectionResetError(104, 'Connection reset by peer')
        return out

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def readline(self, n=-1):
        i = self.body.find(b'\n', self.pos)
        e = len(self.body) if i < 0 else i + 1
        if n is not None and n >= 0:
            e = min(e, self.pos + n)
        out = self.body[self.pos:e]
        self.pos = e
        return out

    def readlines(self, hint=-1):
        return [self.read()]


def parse_head(head):
    lines = head.split(b'\r\n')
    m, target, _ = lines[0].decode('latin-1').split(' ', 2)
    hd = []
    for ln in lines[1:]:
        k, _, v = ln.partition(b':')
        hd.append((k.strip().decode('latin-1'), v.strip().decode('latin-1')))
    return m, target, hd


def make_environ(head, inp, scheme='http', host=None, extra=None):
    m, target, hd = parse_head(head)
    path, _, qs = target.partition('?')
    if '://' in path:
        path = '/' + path.split('://', 1)[1].partition('/')[2]
    d = {k.lower(): v for k, v in hd}
    env = {
        'REQUEST_METHOD': m, 'SCRIPT_NAME': '', 'PATH_INFO': path or '/', 'QUERY_STRING': qs,
        'SERVER_NAME': 'server.internal', 'SERVER_PORT': '8080', 'SERVER_PROTOCOL': 'HTTP/1.1',
        'REMOTE_ADDR': '10.0.0.9',
        'wsgi.version': (1, 0), 'wsgi.url_scheme': scheme, 'wsgi.input': inp, 'wsgi.errors': io.StringIO(),
        'wsgi.multithread': True, 'wsgi.multiprocess': False, 'wsgi.run_once': False,
    }
    if 'content-type' in d:
        env['CONTENT_TYPE'] = d['content-type']
    if 'content-length' in d:
        env['CONTENT_LENGTH'] = d['content-length']
    for k, v in d.items():
        if k not in ('content-type', 'content-length'):
            env['HTTP_' + k.upper().replace('-', '_')] = v
    env.update(extra or {})
    return env


HOP = {'connection', 'keep-alive', 'proxy-authenticate', 'proxy-authorization', 'te', 'trailers', 'transfer-encoding',
       'upgrade'}


def run_wsgi(app, environ):
    """Call a WSGI application by the rules; returns (status, headers, body, problems)."""
    problems = []
    st = {}

    def write(data):
        st.setdefault('w', []).append(data)

    def start_response(status, headers, exc_info=None):
        if 'status' in st and exc_info is None:
            problems.append('start_response called twice')
        st['status'], st['headers'] = status, headers
        return write

    it = app(environ, start_response)
    body = b''
    try:
        for chunk in it:
            if not isinstance(chunk, bytes):
                problems.append(f'body item is {type(chunk).__name__}, not bytes')
                chunk = str(chunk).encode('utf-8', 'replace')
            if 'status' not in st:
                problems.append('body before start_response')
            body += chunk
    finally:
        c = getattr(it, 'close', None)
        if c is not None:
            c()
    if 'status' not in st:
        problems.append('start_response never called')
        return '500 Internal Server Error', [], body, problems
    status, headers = st['status'], st['headers']
    if type(status) is not str or not re.match(r'^\d{3} ', status):
        problems.append(f'bad status {status!r}')
    if not isinstance(headers, list):
        problems.append('headers are not a list')
    for kv in headers:
        if not (isinstance(kv, tuple) and len(kv) == 2 and type(kv[0]) is str and isinstance(kv[1], str)):
            problems.append(f'bad header {kv!r}')
            continue
        if kv[0].lower() in HOP:
            problems.append(f'hop-by-hop header {kv[0]}')
        if re.search(r'[\x00-\x1f]', kv[0] + str(kv[1])):
            problems.append(f'control character in header {kv[0]}')
        if type(kv[1]) is not str:
            problems.append(f'header {kv[0]} value is a {type(kv[1]).__name__}')
    names = [k.lower() for k, _ in headers]
    if 'content-type' in names and names.count('content-type') > 1:
        problems.append('duplicate content-type')
    return status, headers, body, problems


class Server:
    """One simulated server process: a WSGI application behind a thread pool of unbounded size."""

    def __init__(self, sim, net, app, host, name=None, scheme='http', pieces=0, framing='length', extra=None, after=None):
        self.sim, self.net, self.app, self.host = sim, net, app, host
        self.scheme, self.pieces, self.framing, self.extra = scheme, pieces, framing, extra
        self.responses = []     # dicts
        self.crashes = []
        self.problems = []
        self.aborts = {}        # delivery number -> (n, exc)
        self.count = 0
        self.after = after
        self.tasks = []
        self.schemes = {}       # host name -> scheme seen under that name
        self.killed_at = []
        net.serve(host, self.deliver)

    def deliver(self, conn, head, body, end, dup):
        i = self.count
        self.count += 1
        self.tasks.append(self.sim.spawn(f'srv:{self.host}:{i}', lambda: self.handle(conn, head, body, end, dup, i),
                                         host=self.host, abort=self.aborts.get(i)))

    def crash(self, downtime, restart):
        """Kill the process now; after downtime, restart() provides the application of the new one."""
        for t in self.tasks:
            self.sim.kill(t)
        self.net.crash(self.host)
        self.killed_at.append(self.sim.now())

        def up():
            self.app = restart()
            self.net.down.discard(self.host)
            self.sim.ev('restart', self.host)

        self.sim.after(downtime, up)

    def handle(self, conn, head, body, end, dup, i):
        m = re.search(rb'(?i)\r\ncontent-length:\s*(\d+)', head)
        declared = int(m.group(1)) if m else len(body)
        if end is None:
            declared = len(body)   # damaged bodies keep framing consistent
            head = re.sub(rb'(?i)(\r\ncontent-length:\s*)\d+', lambda mm: mm.group(1) + b'%d' % len(body), head)
        t = self.sim.current()
        t.data['delivery'] = i
        t.data['conn'] = conn
        env = make_environ(head, SimInput(self.sim, body, end, self.pieces, declared),
                           self.schemes.get(conn.host, self.scheme), self.host, self.extra)
        env['dst.delivery'] = i
        env['dst.call'] = conn.call
        self.sim.ev('srv-start', self.host, i)
        rec = {'i': i, 'host': conn.host, 'call': conn.call, 'cid': conn.cid, 'dup': dup, 'end': end, 'head': head, 'req': body}
        try:
            status, headers, out, probs = run_wsgi(self.app, env)
        except BaseException as e:
            if type(e).__name__ in ('Stopped', 'StepLimit'):
                raise
            self.sim.retrace()
            rec['crash'] = e
            rec['status'] = 500
            rec['headers'] = []
            rec['body'] = b''
            self.responses.append(rec)
            self.crashes.append((i, e))
            self.sim.ev('srv-crash', self.host, i, type(e).__name__)
            self.net.reply(conn, b'HTTP/1.1 500 Internal Server Error\r\nContent-Type: text/html\r\n',
                           b'<h1>Server Error (500)</h1>', 'length', dup)
            return
        self.sim.retrace()
        rec.update(status=int(status[:3]) if re.match(r'^\d{3}', str(status)) else status, status_line=status,
                   headers=headers, body=out, problems=probs)
        self.responses.append(rec)
        for p in probs:
            self.problems.append((i, p))
        self.sim.ev('srv-done', self.host, i, rec['status'], len(out))
        hd = b'HTTP/1.1 ' + str(status).encode('latin-1', 'replace') + b'\r\n'
        for k, v in headers:
            if str(k).lower() != 'content-length':
                hd += f'{k}: {v}\r\n'.encode('latin-1', 'replace')
        self.net.reply(conn, hd, out, self.framing, dup)


# ---------------------------------------------------------------- applications
def wsgi_app(service, **kw):
    from soapfish.soap_dispatch import SOAPDispatcher, WsgiSoapApplication
    return WsgiSoapApplication(SOAPDispatcher(service, **kw))


def flask_app(service, **kw):
    from flask import Flask
    from soapfish.flask_ import flask_dispatcher
    app = Flask('dstapp')
    view = flask_dispatcher(service, **kw)
    app.add_url_rule('/', 'root', view, methods=['GET', 'POST', 'PUT', 'DELETE', 'HEAD'])
    app.add_url_rule('/<path:p>', 'ws', lambda p: view(), methods=['GET', 'POST', 'PUT', 'DELETE', 'HEAD'])
    return app


_DJ = {}


def django_setup():
    if 'ok' in _DJ:
        return
    import sys
    import types
    import django
    from django.conf import settings
    urls = types.ModuleType('dst_urls')
    urls.urlpatterns = []
    sys.modules['dst_urls'] = urls
    settings.configure(DEBUG=False, SECRET_KEY='x' * 50, ALLOWED_HOSTS=['*'], ROOT_URLCONF='dst_urls', MIDDLEWARE=[],
                       INSTALLED_APPS=[], LOGGING_CONFIG=None, USE_TZ=True, DATA_UPLOAD_MAX_MEMORY_SIZE=None,
                       DEBUG_PROPAGATE_EXCEPTIONS=False)
    django.setup()
    from django.core.handlers.wsgi import WSGIHandler
    from django.urls import re_path
    from django.http import HttpResponse
    urls.urlpatterns.append(re_path(r'', lambda r: _DJ['views'][r.environ['dst.app']](r)))
    urls.handler500 = lambda request, *a: HttpResponse('server error', status=500)
    urls.handler400 = lambda request, *a: HttpResponse('bad request', status=400)
    _DJ['views'] = {}
    _DJ['handler'] = WSGIHandler()
    _DJ['n'] = 0
    _DJ['ok'] = True


def django_app(service, **kw):
    django_setup()
    from soapfish.django_ import django_dispatcher
    k = _DJ['n']
    _DJ['n'] += 1
    _DJ['views'][k] = django_dispatcher(service, **kw)

    def app(environ, start_response):
        environ = dict(environ)
        environ['dst.app'] = k
        return _DJ['handler'](environ, start_response)

    return app


FRONTS = {'wsgi': wsgi_app, 'flask': flask_app, 'django': django_app}


def warm():
    """Import everything the front ends load lazily, so that no import runs inside a simulated task."""
    from soapfish import core, soap, xsd

    class T(xsd.ComplexType):
        a = xsd.Element(xsd.String)

    sc = xsd.Schema('urn:warm', elementFormDefault=xsd.ElementFormDefault.QUALIFIED, complexTypes=[T],
                    elements={'t': xsd.Element(T), 'u': xsd.Element(T)})
    m = xsd.Method('op', 'op', 't', 'u', function=lambda r, i: T(a=i.a))
    for ver, env in ((soap.SOAPVersion.SOAP11, 'http://schemas.xmlsoap.org/soap/envelope/'),
                     (soap.SOAPVersion.SOAP12, 'http://www.w3.org/2003/05/soap-envelope')):
        svc = soap.Service(name='W', targetNamespace='urn:w', location='http://x/', schemas=[sc], methods=[m], version=ver)
        good = (f'<s:Envelope xmlns:s="{env}"><s:Body><n:t xmlns:n="urn:warm"><n:a>x</n:a></n:t></s:Body></s:Envelope>').encode()
        for f in FRONTS.values():
            app = f(svc)
            for meth, qs, body in (('POST', '', good), ('POST', '', b'<x'), ('GET', '?wsdl', b''), ('GET', '?xsd=zz', b''),
                                   ('PUT', '', b'')):
                head = f'{meth} /ws{qs} HTTP/1.1\r\nHost: server\r\nContent-Type: text/xml\r\nContent-Length: {len(body)}'.encode()
                try:
                    run_wsgi(app, make_environ(head, io.BytesIO(body)))
                except Exception:  # a broken tree must not stop the zygote: the properties judge it
                    pass
    assert core
    if 'ok' in _DJ:
        _DJ['views'].clear()
        _DJ['n'] = 0
    import encodings.idna  # noqa: F401
    import email.parser  # noqa: F401
    import requests
    from .sched import Sim
    from .net import Net
    sim = Sim()
    net = Net(sim)
    STATE.net = net

    def app(env, sr):
        env['wsgi.input'].read(int(env.get('CONTENT_LENGTH') or 0))
        sr('200 OK', [('Content-Type', 'text/xml')])
        return [b'<a/>']

    srv = Server(sim, net, app, 'warm')

    def go():
        requests.post('http://warm/ws', data=b'<x/>', auth=('u', 'p'), headers={'Content-Type': 'text/xml'}).content
        requests.get('http://warm/ws?wsdl').text

    t = sim.spawn('c', go)
    sim.run()
    STATE.net = None
    if t.exc is not None:
        raise t.exc
    assert len(srv.responses) == 2
    warm_templates()
    # the library itself starts every case as freshly imported: nothing evaluated lazily yet
    import importlib
    import sys
    names = sorted(n for n in sys.modules if n == 'soapfish' or n.startswith('soapfish.'))
    for n in names:
        del sys.modules[n]
    for n in names:
        importlib.import_module(n)


def warm_templates():
    """Compile the templates once, before the workers fork."""
    import os
    from soapfish import utils, wsdl2py, xsd2py
    from . import docs, seams
    seams.memo_templates()
    here = os.path.dirname(os.path.abspath(__file__))
    for kind in ('wsdl', 'xsd'):
        import random
        sp = docs.gen(random.Random(1), root=kind, place='disk', cyc=False, maxdocs=1)
        xml = docs.doc_xml(sp['docs'][0], '/nonexistent', sp).encode()
        for target in ('client', 'server'):
            try:
                if kind == 'wsdl':
                    wsdl2py.generate_code_from_wsdl(xml, target, cwd=here)
                else:
                    xsd2py.generate_code_from_xsd(xml, cwd=here)
            except Exception:   # a broken tree must not stop the zygote: the properties judge it
                pass
    assert utils
