"""C17: every front end forwards requests and answers unchanged."""
import base64
import json
import zlib

from dst import front, mutate, spec, world
from dst.harness import solo
from dst.seams import STATE
from props import c06

RULE = ('A case is a random service with hooks that set headers and status codes behind the WSGI application, Flask or Django and 1-8 '
        'requests from concurrent clients: SOAP messages good and bad under many content types, description and unknown requests, read in '
        'pieces, cut or reset at a seeded byte, duplicated, delayed. Every request delivered whole is afterwards dispatched directly in a '
        'fresh process; status, SOAP headers, body and what the handler saw are compared. Non-trivial: an answer of two kinds of request '
        'was compared, or a cut request and an answer.')
COMPONENTS = world.components()
QUICK, THOROUGH, QUICK_S, THOROUGH_S = 100000, 10000000, 25, 600
LISTS = ('ops',)
SIMPLER = {'pieces': 0, 'framing': 'length', 'segment': 65536, 'work': False, 'share': False, 'hooks': {}}
ASSUMPTIONS = ['Flask and Django may add headers of their own and answer broken requests themselves.']

CTS = ('application/x-www-form-urlencoded', 'multipart/form-data; boundary=xx', 'text/plain', 'application/xml', 'text/xml; charset=iso-8859-1',
       'application/octet-stream', 'application/json', '')
CONTENT = ('latin1', 'utf16', 'bin', 'empty', 'gzip', 'big')
SEEN = ('REQUEST_METHOD', 'QUERY_STRING', 'PATH_INFO', 'SCRIPT_NAME', 'REMOTE_ADDR', 'CONTENT_TYPE', 'CONTENT_LENGTH', 'HTTP_HOST', 'HTTP_X_TRACE',
        'HTTP_SOAPACTION', 'HTTP_AUTHORIZATION', 'HTTP_NOT_THERE', 'wsgi.url_scheme', 'HTTP_COOKIE', 'SERVER_NAME')


def content(kind):
    text = '<?xml version="1.0" encoding="%s"?>\n<d>caf\xe9 ${scheme}://${host} $5 {x}</d>'
    return {'latin1': (text % 'iso-8859-1').encode('latin-1'), 'utf16': (text % 'utf-16').encode('utf-16'), 'bin': bytes(range(256)) + b'\r\n\r\n\n',
            'empty': b'', 'gzip': zlib.compress(b'x' * 50), 'big': b'<d>' + b'x\n' * 30000 + b'</d>'}[kind]


def gen(rng, tier):
    c = world.gen_case(rng, tier, p_fault=0.3, p_foreign=0.85, p_crash=0, p_soaperr=0.2, p_exc=0.15, max_clients=4, max_ops=8,
                       faults=('req_cut', 'req_cut', 'req_cut', 'dup', 'delay', 'req_damage', 'resp_lost'),
                       fronts=('wsgi', 'flask', 'django', 'wsgi', 'flask', 'django', 'flask', 'django'))
    c06.mix(rng, c)
    c['pieces'] = rng.choice([0, 1, 2, 7, 64, 300])
    svc = c['svc']
    for o in c['ops']:
        h = o['headers'] = {}
        if rng.random() < 0.5:
            h['X-Trace'] = rng.choice(['t1', 'a, b', 'ü'.encode('utf-8').decode('latin-1'), '"q"'])
        if rng.random() < 0.2:
            h['Cookie'] = 'a=b; c="d"'
        if rng.random() < 0.3:       # names that a front end might take for its own
            h[rng.choice(['Action', 'Action', 'Action', 'Request-Method', 'Query-String', 'Path-Info', 'Wsgi.Url-Scheme', 'Url-Scheme', 'Host-Name', 'Http-Host', 'Forwarded'])] = \
                rng.choice(['GET', 'wsdl', 'x', 'https', svc['methods'][0]['action']])
        if o['via'] != 'foreign':
            continue
        if svc['v'] == 11 and rng.random() < 0.3:
            o['ct'] = rng.choice(CTS)
        if rng.random() < 0.1 and c['pieces'] in (0, 300):
            o['pad'] = rng.choice([2000, 33000, 70000])
        x = rng.random()
        if x < 0.12:
            o['http'] = [rng.choice(['GET', 'PUT', 'DELETE', 'GET', 'POST']), rng.choice(['', '?', '?foo', '?WSDL', '?xsd', '?xsd=', '?xsd=none', '?a=%C3%BC&b=%00', '?wsdl&xsd=x'])]
        elif x < 0.25:
            o['get'] = rng.choice(['wsdl', 'xsd'])
    c['hooks'] = {}
    for k in ('soap-response', 'wsdl-response', 'xsd-response'):
        if rng.random() < 0.5:
            c['hooks'][k] = [rng.choice(['X-Soap', 'Cache-Control', 'Set-Cookie', 'Vary', 'x-lower', 'ETag', 'WWW-Authenticate', 'Last-Modified']),
                             rng.choice(['v', 'no-store', 'a=b; Path=/', 'ü', '"q"', 'x, y', '']), rng.choice([None, None, 200, 202, 203, 400, 404, 503, 418])]
            if rng.random() < 0.35:  # whatever bytes
                c['hooks'][k].append(rng.choice(CONTENT))
    if rng.random() < 0.25:
        c['wsdl'] = rng.choice(CONTENT)
    c['mw'] = rng.choice([['fault'], ['fault', 'headers'], ['headers', 'fault'], ['fault', 'status']])
    if rng.random() < 0.3:
        c['request_hook'] = rng.choice(['new', 'same'])
    if c['front'] != 'wsgi':
        del c['ops'][5:]
    return c


class W(c06.W):
    def __init__(self, case):
        super().__init__(case)
        self.saw = {}

    def handler(self, b, m):
        fn = super().handler(b, m)

        def wrapped(request, inp):
            self.note(request)
            return fn(request, inp)
        return wrapped

    def note(self, request):
        t = self.sim.current()
        env = request.environ
        self.saw.setdefault(t.data['delivery'], []).append(
            [type(request.http_content).__name__, zlib.crc32(bytes(request.http_content)), {k: env.get(k) for k in SEEN},
             getattr(request.method, 'operationName', None), env.get('HTTP_NOT_THERE', 'default')])

    def middlewares(self):
        out = super().middlewares()
        names = self.case['mw']
        if 'headers' in names:
            def headers(request, next_call):
                from soapfish import core
                r = next_call(request)
                if not isinstance(r, core.SOAPResponse):
                    r = core.SOAPResponse(r)
                r.http_headers['X-Mw'] = 'mw'
                return r
            out.insert(names.index('headers'), headers)
        if 'status' in names:
            def status(request, next_call):
                from soapfish import core
                r = next_call(request)
                if not isinstance(r, core.SOAPResponse):
                    r = core.SOAPResponse(r)
                r.http_status_code = 207
                return r
            out.insert(names.index('status'), status)
        return out

    def extra_dispatch(self):
        from soapfish import core
        hooks = {}

        def make(key, val, status, body=None):
            def hook(dispatcher, request, response):
                response.http_headers[key] = val
                if body:
                    response.http_content = content(body)
                if status:
                    response.http_status_code = status
                return response
            return hook
        for k, h in self.case['hooks'].items():
            hooks[k] = make(*h)
        kind = self.case.get('request_hook')
        if kind:
            def rh(dispatcher, request):
                self.note(request)
                return core.SOAPRequest(request.environ, request.http_content) if kind == 'new' else request
            for k in ('soap-request', 'wsdl-request', 'xsd-request'):
                hooks[k] = rh
        return {'hooks': hooks, 'wsdl': content(self.case['wsdl'])} if self.case.get('wsdl') else {'hooks': hooks}

    def request_bytes(self, o):
        h, body = super().request_bytes(o)
        if o.get('pad'):
            body += b' \n' * o['pad']
        if not h.get('Content-Type'):
            h.pop('Content-Type', None)
        return h, body

    def do_foreign(self, o):
        if 'http' not in o:
            return super().do_foreign(o)
        import requests
        h, body = self.request_bytes(o)
        loc = self.svc['loc'].replace('${scheme}', 'http').replace('${host}', world.HOST)
        m, q = o['http']
        try:
            r = requests.request(m, loc + q, headers=h, data=None if m == 'GET' else body)
            return {'ret': r.status_code}
        except Exception as x:
            self.sim.retrace()
            return {'exc': type(x).__name__, 'msg': str(x)[:200]}


class Direct(W):
    """The dispatcher itself, in a fresh process, given one request as the server got it."""

    def __init__(self, case, call):
        super().__init__(dict(case, sched={'mode': 'rand', 'seed': 0, 'p': 0.0}, front='wsgi'))
        self.only = call

    def answer(self, head, body):
        from soapfish import core, soap_dispatch
        self.start_server()
        res = {}

        class C:
            cid = 0
            call = self.only

        def go():
            t = self.sim.current()
            t.data.update(conn=C, delivery=0)
            env = front.make_environ(head, None, 'http', world.HOST)
            try:
                r = self.server.app.dispatcher.dispatch(core.SOAPRequest(env, body))
                res.update(status=r.http_status_code, headers=[[str(k), str(x)] for k, x in r.http_headers.items()],
                           body=mutate.b64(r.http_content), crash=None)
            except Exception as x:
                self.sim.retrace()
                res.update(status=500, headers=[], body='', crash=type(x).__name__)

        assert soap_dispatch
        self.sim.spawn('alone', go, host=world.HOST)
        STATE.net = self.net
        self.stubs = {}
        stuck = self.sim.run()
        if self.herr:
            raise self.herr[0]
        res['saw'] = self.saw.get(0, [])
        if stuck:
            res['stuck'] = stuck
        return res


def record(case):
    w = W(case).run()
    h = c06.history(w)
    res = w.result(history=h, saw={str(k): x for k, x in w.saw.items()}, stuck=w.stuck, overrun=w.sim.overrun, problems=w.server.problems,
                   execs=sorted({x['delivery'] for x in w.execs}))
    return json.loads(json.dumps(res))


def complete(svc, body):
    try:
        spec.parse_envelope(svc, body)
        return True
    except ValueError:
        return False


def run(case, v):
    import re
    res = solo(lambda: record(case))
    hist, saw, execs, problems = (res.pop(k) for k in ('history', 'saw', 'execs', 'problems'))
    if res['stuck']:
        v('stuck', res['stuck'])
    if res['overrun']:
        v('no-progress', 'step budget exceeded')
    for i, p in problems:
        v('wsgi-rule', f'{case["front"]}, delivery {i}: {p}')
    n = cut = 0
    kinds = set()
    cache = {}
    for h in hist:
        body = base64.b64decode(h['req'])
        o = next(x for x in case['ops'] if x['id'] == h['call'])
        if h['end']:
            cut += 1
            if h['i'] in execs and not complete(case['svc'], body):
                v('handler-ran-on-cut-request', f'{case["front"]}, delivery {h["i"]} ({h["end"]}): {body[-200:]!r}')
            continue
        if not re.search(rb'(?i)\r\ncontent-length:', base64.b64decode(h['head'])):
            body = b''
        head = re.sub(rb'(?i)(\r\ncontent-length:\s*)\d+', lambda m: m.group(1) + b'%d' % len(body), base64.b64decode(h['head']))
        k = (h['call'], h['head'], h['req'])
        if k not in cache:
            cache[k] = solo(lambda: Direct(case, h['call']).answer(head, body))
        d = cache[k]
        n += 1
        kinds.add(o.get('get') or str(o.get('http') or 'soap'))
        what = f'{case["front"]}, delivery {h["i"]} of call {h["call"]}, pieces {case["pieces"]}, {head[:300]!r}, {len(body)} bytes'
        if (h['crash'] is None) != (d['crash'] is None) and not (d['crash'] and h['status'] == 500):
            v('crash-differs', f'{what}: {h["crash"]}, directly {d["crash"]}')
            continue
        if d['crash']:
            continue
        if h['status'] != d['status']:
            v('status-differs', f'{what}: {h["status"]}, directly {d["status"]}')
        got = {a.lower(): b for a, b in h['headers']}
        for a, b in d['headers']:
            if got.get(a.lower()) != b:
                v('header-differs', f'{what}: {a} is {got.get(a.lower())!r}, directly {b!r}')
        nb = len(base64.b64decode(h['body']))
        if got.get('content-length', str(nb)) != str(nb):
            v('length-differs', f'{what}: Content-Length {got["content-length"]}, {nb} bytes')
        if h['body'] != d['body']:
            v('body-differs', f'{what}: {base64.b64decode(h["body"])[:500]!r}, directly {base64.b64decode(d["body"])[:500]!r}; request {body[:400]!r}')
        a, b = saw.get(str(h['i']), []), d['saw']
        if a != b:
            v('request-differs', f'{what}: seen {a}, directly {b}')
    res.update(nontrivial=len(kinds) > 1 or n > 0 and cut > 0, key=f'{res["sig"]}:{case["seed"]}',
               probes={'answers_compared': n, 'cut_requests': cut, 'front_' + case['front']: 1},
               summary=f'{case["front"]}: {n} answers compared, {cut} cut')
    return res
