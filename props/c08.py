"""C08: middlewares and hooks wrap every request in order, exactly once."""
from dst import mutate, spec, world
from props import c05

RULE = ('A case is a random service with 0-4 middlewares (scripted per request: pass, short-circuit with an object, response or error, raise '
        'before or after, replace, call the next one twice, swallow; ExceptionToSoapFault and ExceptionLogger anywhere) and hooks that '
        'observe, replace or decorate, concurrent calls, malformed, misdirected and description requests, duplicates and a seeded schedule. The events '
        'of every delivery must be one run of the reference recursion. Non-trivial: two requests overlapped and some middleware did not just pass.')
COMPONENTS = world.components()
QUICK, THOROUGH, QUICK_S, THOROUGH_S = 100000, 10000000, 40, 600
LISTS = ('ops',)
SIMPLER = {'front': 'wsgi', 'pieces': 0, 'framing': 'length', 'segment': 65536, 'work': False, 'share': False, 'onestub': False}
ASSUMPTIONS = ['An exception that is no SOAP error and that no middleware turns into one belongs to the server: the response hook does not run.']

ACTS = ('short-resp', 'short-obj', 'short-err', 'raise-before', 'raise-after', 'replace', 'twice', 'swallow', 'seterr', 'addhdr', 'newreq')


def gen(rng, tier):
    c = world.gen_case(rng, tier, max_clients=5, max_ops=7, p_fault=0.12, p_foreign=0.5, p_crash=0, p_soaperr=0.2, p_exc=0.2,
                       faults=('dup', 'dup', 'delay', 'resp_lost'))
    n = rng.choice([0, 1, 2, 2, 3, 3, 4])
    c['mw'] = [rng.choice(['script', 'script', 'script', 'fault', 'logger']) for _ in range(n)]
    c['logger'] = rng.choice([['Exception', True], ['Exception', False], ['ValueError', True], ['KeyError,TypeError', False]])
    c['mwstyle'] = rng.randrange(3)
    c['hooks'] = {k: rng.choice(['observe', 'replace', 'decorate']) for k in
                  ('soap-request', 'soap-response', 'wsdl-request', 'wsdl-response', 'xsd-request', 'xsd-response') if rng.random() < 0.6}
    svc = c['svc']
    g = spec.Gen(rng)
    quiet = rng.random() < 0.3
    for o in c['ops']:
        if o['via'] == 'foreign':
            x = rng.random()
            if x < 0.15:
                o['bad'] = rng.choice(['xml', 'nobody', 'action', 'schema'])
                if o['bad'] == 'xml':
                    o['raw'] = mutate.b64(rng.choice([b'<x', b'', b'\x00', b'<a></b>']))
                elif o['bad'] == 'nobody':
                    env = spec.ENV[svc['v']]
                    o['raw'] = mutate.b64(rng.choice([f'<e:Envelope xmlns:e="{env}"/>', f'<e:Envelope xmlns:e="{env}"><e:Body/></e:Envelope>']).encode())
                elif o['bad'] == 'action':
                    o.update(action='urn:nowhere')
                    o.pop('noact', None)
                else:
                    env = spec.ENV[svc['v']]
                    o['raw'] = mutate.b64(f'<e:Envelope xmlns:e="{env}"><e:Body><nosuch/></e:Body></e:Envelope>'.encode())
            elif x < 0.3:
                o['get'] = rng.choice(['?wsdl', '?singleWsdl', '?WSDL', '?xsd=', '?xsd=nope'])
            elif x < 0.33:
                o['method'] = rng.choice(['PUT', 'DELETE'])
        m = spec.method_of(svc, o['op'])
        sch, e = spec.find_elem(svc, m['out'])
        o['mws'] = []
        for i in range(n):
            a = {'act': 'pass'}
            if not quiet and rng.random() < 0.5:
                a['act'] = rng.choice(ACTS)
                if a['act'] in ('short-err', 'raise-before', 'raise-after', 'seterr'):
                    if a['act'] in ('raise-before', 'raise-after') and rng.random() < 0.5:
                        a['err'] = {'exc': [rng.choice(sorted(world.EXCS)), f'mw{i} {o["id"]}']}
                    else:
                        a['err'] = {'soaperr': [rng.choice('CS'), f'mw{i} says {o["id"]}', None]}
                else:
                    a['val'] = g.value(svc, sch, e['type'], cid=f'm{i}.{o["id"]}')
            o['mws'].append(a)
        if 'soaperr' in o['out']:
            o['out']['mode'] = rng.choice(['raise', 'return', 'wrap'])
        elif 'ok' in o['out'] and rng.random() < 0.3:
            o['out']['wrap'] = True
    return c


class W(c05.W):
    BY_CONN = True

    def __init__(self, case):
        super().__init__(case)
        self.tr = {}
        self.vals = []
        self.keep = []

    def log(self, *ev):
        t = self.sim.current()
        self.keep.append(ev)
        self.tr.setdefault(t.data.get('delivery'), []).append(ev)

    def op_now(self):
        return self.ops[self.sim.current().data['conn'].call]

    def make_out(self, o, val):
        m = spec.method_of(self.svc, o['op'])
        sch, e = spec.find_elem(self.svc, m['out'])
        x = spec.to_obj(self.built, sch, e['type'], val)
        self.vals.append((x, val))
        return x

    def handler(self, b, m):
        fn = super().handler(b, m)

        def run(request, inp):
            sch, e = spec.find_elem(self.svc, m['in'])
            self.log('handler', m['op'], request, [spec.from_obj(b, sch, e['type'], inp), spec.hdr_from(b, m['ih'] or [], request.soap_header)])
            try:
                r = fn(request, inp)
            except BaseException as x:
                self.log('hout', 'raise', x)
                raise
            o = self.op_now()
            if 'ok' in o['out']:
                from soapfish import core
                self.vals.append((r.soap_body if isinstance(r, core.SOAPResponse) else r, o['out']['ok']))
            self.log('hout', 'ret', r)
            return r

        return run

    def script(self, i):
        from soapfish import core

        def act(request, next_call):
            o = self.op_now()
            a = o['mws'][i]
            k = a['act']

            def nxt(req=request):
                try:
                    r = next_call(req)
                except BaseException as x:
                    self.log('got', i, 'raise', x)
                    raise
                self.log('got', i, 'ret', r)
                return r

            if k == 'short-resp':
                return core.SOAPResponse(self.make_out(o, a['val']))
            if k == 'short-obj':
                return self.make_out(o, a['val'])
            if k == 'short-err':
                return self.err(a['err'])
            if k == 'raise-before':
                raise self.err(a['err'])
            if k == 'newreq':
                new = core.SOAPRequest(request.environ, request.http_content)
                new.dispatcher = request.dispatcher
                self.log('newreq', i, new)
                try:
                    return nxt(new)
                finally:
                    request.method = new.method
            if k == 'swallow':
                try:
                    return nxt()
                except Exception:
                    return core.SOAPResponse(self.make_out(o, a['val']))
            if k == 'twice':
                try:
                    nxt()
                except Exception:
                    pass
                return nxt()
            r = nxt()
            if k == 'raise-after':
                raise self.err(a['err'])
            if k == 'seterr':
                return core.SOAPResponse(self.err(a['err']))
            if k == 'replace':
                return core.SOAPResponse(self.make_out(o, a['val']))
            return r

        def mw(request, next_call):
            self.log('enter', i, request)
            self.sim.point('mw')
            try:
                r = act(request, next_call)
            except BaseException as x:
                self.log('exit', i, 'raise', x)
                raise
            self.log('exit', i, 'ret', r)
            return r

        style = (self.case['mwstyle'] + i) % 3
        if style == 1:
            class MW:
                def __call__(s, request, next_call):
                    return mw(request, next_call)

            return MW()
        if style == 2:
            return lambda request, next_call=None, **kw: mw(request, next_call)
        return mw

    def middlewares(self):
        from soapfish import middlewares as mws
        w = self
        out = []
        for i, n in enumerate(self.case['mw']):
            if n == 'fault':
                out.append(mws.ExceptionToSoapFault())
            elif n == 'logger':
                class L:
                    def __init__(s, i):
                        s.i = i

                    def exception(s, e, *a):
                        w.log('log', s.i, e)

                    def error(s, fmt, *a):
                        w.log('log', s.i, next(x for x in a if isinstance(x, BaseException)))

                names, tb = self.case['logger']
                excs = tuple(Exception if x == 'Exception' else world.EXCS[x] for x in names.split(','))
                out.append(mws.ExceptionLogger(logger=L(i), exceptions=excs, traceback=tb))
            else:
                out.append(self.script(i))
        return out

    def extra_dispatch(self):
        from soapfish import core
        hooks = {}

        def req(name, kind):
            def hook(dispatcher, request):
                new = request
                if kind == 'replace':
                    new = core.SOAPRequest(request.environ, request.http_content)
                self.log('hook', name, request, new)
                return new
            return hook

        def resp(name, kind):
            def hook(dispatcher, request, response):
                new = response
                o = self.op_now()
                if kind == 'decorate':
                    response.http_headers['X-Hook-%s' % o['id']] = name
                elif kind == 'replace':
                    new = core.SOAPResponse(response.soap_body, soap_header=response.soap_header, http_content=response.http_content,
                                            http_status_code=response.http_status_code, http_headers=dict(response.http_headers, **{'X-New': str(o['id'])}))
                self.log('hook', name, request, response, new)
                return new
            return hook

        for n, kind in self.case['hooks'].items():
            hooks[n] = req(n, kind) if n.endswith('request') else resp(n, kind)
        return {'hooks': hooks}

    def do_foreign(self, o):
        if 'get' not in o:
            return super().do_foreign(o)
        import requests
        loc = self.svc['loc'].replace('${scheme}', 'http').replace('${host}', world.HOST)
        try:
            r = requests.get(loc + o['get'])
            return {'get': r.status_code}
        except Exception as x:
            self.sim.retrace()
            return {'exc': type(x).__name__, 'msg': str(x)[:200]}


class Mismatch(Exception):
    pass


class Match:
    """The reference recursion, consuming the events of one delivery."""

    def __init__(self, w, o, rec):
        from soapfish import core
        self.core = core
        self.w, self.o, self.rec = w, o, rec
        self.ev = w.tr.get(rec['i'], [])
        self.p = 0
        self.method = False
        self.given = None       # to every execution for one request the same

    def next(self, *head):
        if self.p >= len(self.ev):
            raise Mismatch(f'expected {head}, but nothing more happened')
        e = self.ev[self.p]
        if tuple(e[:len(head)]) != head:
            raise Mismatch(f'expected {head}, got {e[:2]}')
        self.p += 1
        return e[len(head):]

    def peek(self, *head):
        return self.p < len(self.ev) and tuple(self.ev[self.p][:len(head)]) == head

    def end(self):
        if self.p != len(self.ev):
            raise Mismatch(f'unexpected {[e[:3] for e in self.ev[self.p:]]}')

    def hook(self, name, request=None):
        if name in self.w.case['hooks']:
            r = self.next('hook', name)
            if request is not None and r[0] is not request:
                raise Mismatch(f'{name} got another request')
            return r
        return None

    # outcomes: (kind, predicate, text)
    def is_(self, kind, x):
        return (kind, lambda y: y is x, f'{kind} {x!r}', x)

    def chain(self, i, request):
        mw = self.w.case['mw']
        core = self.core
        if i == len(mw):
            if self.o.get('bad'):
                return ('raise', lambda y: isinstance(y, core.SOAPError), 'client fault', None)
            r = self.next('handler')
            if r[0] != self.o['op']:
                raise Mismatch(f'handler {r[0]} instead of {self.o["op"]}')
            if request is not None and r[1] is not request:
                raise Mismatch('the handler got another request')
            if self.given is not None and self.given != r[2]:
                raise Mismatch(f'the handler was given {r[2]} after {self.given}')
            self.given = r[2]
            self.method = True
            kind, x = self.next('hout')
            if kind == 'raise' or isinstance(x, core.SOAPResponse):
                return self.is_(kind, x)
            return ('ret', lambda y: isinstance(y, core.SOAPResponse) and y.soap_body is x, f'response of {x!r}', x)
        if mw[i] == 'fault':
            kind, pred, text, x = self.chain(i + 1, request)
            if kind == 'ret':
                return kind, pred, text, x
            if x is None or isinstance(x, core.SOAPError):
                code, msg = (None, None) if x is None else (x.code, x.message)
            else:
                code, msg = world.code_value(self.w.svc, 'S'), f'{type(x).__name__}: {x}'
            if x is not None and not isinstance(x, Exception):
                return kind, pred, text, x

            def ok(y):
                y = y.soap_body if isinstance(y, core.SOAPResponse) else y
                return isinstance(y, core.SOAPError) and (code is None or (y.code == code and y.message == msg))

            return ('ret', ok, f'fault {code} {msg}', ('fault', code, msg))
        if mw[i] == 'logger':
            kind, pred, text, x = self.chain(i + 1, request)
            if kind == 'raise':
                names = self.w.case['logger'][0]
                excs = tuple(Exception if n == 'Exception' else world.EXCS[n] for n in names.split(','))
                if (names == 'Exception') if x is None else isinstance(x, excs):
                    y, = self.next('log', i)
                    if not pred(y):
                        raise Mismatch(f'logged {y!r} instead of {text}')
            return kind, pred, text, x
        r, = self.next('enter', i)
        if request is not None and r is not request:
            raise Mismatch(f'middleware {i} got another request')
        request = r
        a = self.o['mws'][i]['act']
        down = request
        if a == 'newreq':
            down, = self.next('newreq', i)
        calls = {'short-resp': 0, 'short-obj': 0, 'short-err': 0, 'raise-before': 0, 'twice': 2}.get(a, 1)
        raised = False
        for n in range(calls):
            out = self.chain(i + 1, down)
            kind, x = self.next('got', i)
            if kind != out[0] or not out[1](x):
                raise Mismatch(f'middleware {i} observed {kind} {x!r} instead of {out[2]}')
            raised = kind == 'raise' and not isinstance(x, Exception)
            if raised:
                break
        kind, x = self.next('exit', i)
        return self.is_(kind, x)

    def soap(self):
        core, w, o, rec = self.core, self.w, self.o, self.rec
        h = self.hook('soap-request')
        request = h[1] if h else None
        kind, pred, text, x = self.chain(0, request)
        if kind == 'raise' and not (x is None or isinstance(x, core.SOAPError)):
            self.end()
            if rec.get('crash') is not x and w.case.get('front', 'wsgi') == 'wsgi':
                raise Mismatch(f'{text} did not reach the server, it saw {rec.get("crash")!r} and status {rec["status"]}')
            return
        if 'crash' in rec:
            raise Mismatch(f'the server saw {rec["crash"]!r} although the chain gave {text}')
        r = self.hook('soap-response', request)
        self.end()
        if r:
            y = r[1]
            got = [y, y.soap_body] if isinstance(y, core.SOAPResponse) else [y]
            if not any(pred(z) for z in got):
                raise Mismatch(f'the response hook got {y.soap_body!r}, the chain gave {text}')
        self.wire(x, text)

    def wire(self, x, text):
        """What went to the client is what came out of the chain."""
        core, w, rec = self.core, self.w, self.rec
        svc = w.svc
        hk = w.case['hooks'].get('soap-response')
        names = {str(k).lower(): str(v) for k, v in rec['headers']}
        mine = str(self.o['id'])
        self.headers(names, hk, mine)
        p = spec.parse_envelope(svc, rec['body'])
        if isinstance(x, core.SOAPResponse):
            x = x.soap_body
        if x is None or isinstance(x, core.SOAPError) or isinstance(x, tuple):
            if 'fault' not in p:
                raise Mismatch(f'the chain gave {text}, the client was sent {rec["body"][:300]}')
            if rec['status'] != 500:
                raise Mismatch(f'fault sent with status {rec["status"]}')
            if x is not None:
                code, msg = x[1:] if isinstance(x, tuple) else (x.code, x.message)
                if msg is not None and (p['fault']['msg'] != msg or p['fault']['code'] != str(getattr(code, 'value', code))):
                    raise Mismatch(f'the chain gave {text}, the client was sent {p["fault"]}')
            return
        if 'fault' in p:
            raise Mismatch(f'the chain gave {text}, the client was sent {p["fault"]}')
        val = next((v for ob, v in w.vals if ob is x), None)
        if val is None:
            raise Mismatch(f'the chain gave an object nobody made: {x!r}')
        m = spec.method_of(svc, self.o['op'])
        sch, e = spec.find_elem(svc, m['out'])
        got = spec.ref_parse(svc, sch, e['type'], p['node'])
        want = spec.fill(svc, sch, e['type'], val)
        if got != want:
            raise Mismatch(f'the chain gave {want}, the client was sent {got}')
        if self.method and p['elem'] != m['out']:
            raise Mismatch(f'answer element {p["elem"]} instead of {m["out"]}')

    def headers(self, names, hk, mine):
        if hk == 'decorate' and f'x-hook-{mine}' not in names:
            raise Mismatch('the header set by the response hook is missing')
        if hk == 'replace' and names.get('x-new') != mine:
            raise Mismatch(f'the response put by the response hook was not sent: X-New is {names.get("x-new")}')
        for k in names:
            if k.startswith('x-hook-') and k != f'x-hook-{mine}':
                raise Mismatch(f'header {k} belongs to another request')

    def describe(self):
        o, rec = self.o, self.rec
        if o.get('method') or o['get'] == '?WSDL':
            self.end()
            if rec['status'] not in (400, 405):
                raise Mismatch(f'status {rec["status"]}')
            return
        kind = 'wsdl' if 'sdl' in o['get'].lower() else 'xsd'
        h = self.hook(kind + '-request')
        r = self.hook(kind + '-response', h[1] if h else None)
        self.end()
        if 'crash' in rec:
            raise Mismatch(f'the server saw {rec["crash"]!r}')
        names = {str(k).lower(): str(v) for k, v in rec['headers']}
        self.headers(names, self.w.case['hooks'].get(kind + '-response'), str(o['id']))
        if r:
            new = r[2]
            if new.http_content != rec['body'] or new.http_status_code != rec['status']:
                raise Mismatch(f'the response of the {kind}-response hook is not what was sent')


def check(w, v):
    n = acts = 0
    for rec in w.server.responses:
        o = w.ops[rec['call']]
        if rec['end'] or rec['i'] not in w.tr and rec['status'] in (400, 405) and w.case['front'] != 'wsgi':
            continue
        m = Match(w, o, rec)
        try:
            if 'get' in o or o.get('method'):
                m.describe()
            else:
                m.soap()
            n += 1
            acts += any(a['act'] != 'pass' and w.case['mw'][i] == 'script' for i, a in enumerate(o['mws']))
        except (Mismatch, ValueError) as x:
            if 'get' in o or o.get('method'):
                what = f'{o.get("method") or "GET"} {o.get("get")}'
            else:
                what = f'{o["op"]} {o.get("bad") or ""}'
            v('order', f'delivery {rec["i"]} of call {o["id"]} ({what}), middlewares {w.case["mw"]} doing {[a["act"] for a in o["mws"]]}, hooks '
                       f'{w.case["hooks"]}: {x}; events {[e[:3] for e in m.ev]}')
    w.liveness(v)
    return n, acts


def run(case, v):
    w = W(case).run()
    n, acts = check(w, v)
    from props.c01 import overlap
    probes = {'deliveries_checked': n, 'active_scripts': acts}
    for o in case['ops']:
        for i, a in enumerate(o['mws']):
            if case['mw'][i] == 'script':
                probes['act_' + a['act']] = probes.get('act_' + a['act'], 0) + 1
    return w.result(nontrivial=bool(n and acts and overlap(w)), key=f'{w.sim.sig}:{case["seed"]}', probes=probes,
                    summary=f'{n} deliveries through {case["mw"]}, hooks {sorted(case["hooks"])}')
