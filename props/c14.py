"""C14: a client built from a fetched description interoperates or fails loudly."""
import keyword
import os
import sys
import types
import urllib.parse

from dst import front, mutate, spec, world
from dst.seams import CLK
from props import c01, c12
from props.c12 import HARM, Scratch

RULE = ('A case is a random service with its tree of schemas behind one of the front ends and 1-4 concurrent bootstraps, each under a name of '
        'the server of its own: wsdl2py (its functions or its main) over a network that refuses, loses, cuts, damages, replaces, '
        'duplicates and delays, retried until the description could be had; the generated client is loaded and calls the service, the '
        'generated skeleton is given handlers and served, and both generated clients and clients with the original definitions call it, '
        'while other clients use the service and the process of the service may crash and come back. Every attempt hit by a harmful '
        'fault must have raised, every other one succeeded; every argument and value on either side is compared with what was sent. '
        'Non-trivial: a value travelled through generated code and a fault fired or two activities overlapped.')
COMPONENTS = {'real': ['soapfish (wsdl2py, xsd2py, templates, py2wsdl, py2xsd, dispatcher, client stub, xsd)', 'the generated Python code',
                       'jinja2', 'lxml/libxml2', 'requests + urllib3 + http.client', 'Flask and Django where drawn'],
              'stub': ['TCP (simulated sockets with planned faults)', 'the HTTP server loop calling the WSGI application',
                       'thread scheduler (baton, seeded)', 'clocks, randomness']}
QUICK, THOROUGH, QUICK_S, THOROUGH_S = 100000, 10000000, 40, 600
LISTS = ('ops',)
SIMPLER = {'deep': False, 'front': 'wsgi', 'pieces': 0, 'framing': 'length', 'segment': 65536, 'crash': None, 'work': False, 'share': False,
           'onestub': False, 'mw': ['fault']}
ASSUMPTIONS = ['The description holds no headers, defaults or inheritance; what a generated client can say is compared.',
               'Types of one schema refer to types of that schema only (published references to others are a known limit).',
               'An operation whose skeleton function would hide a type of the same name is not generated (known limit).',
               'A gateway page with status 200 is no WSDL or schema.']

NAMES = ('alpha', 'beta.example', 'gamma:8080', 'server')
QS = ('wsdl', 'wsdl', 'wsdl', 'singleWsdl', 'x=1&wsdl', 'wsdl=')
NETK = ('refuse', 'dns', 'unreachable', 'rst_on_send', 'req_lost', 'resp_lost', 'resp_cut', 'resp_cut', 'resp_cut', 'resp_damage', 'gw', 'gw', 'dup', 'delay')
LOCS = ('a b.xsd', 'a+b.xsd', 's#1.xsd', 'x%20y.xsd', '../up.xsd', 'a;b=c.xsd', "it's.xsd", 'q?wsdl', 's&s.xsd', '/abs/s.xsd', '${scheme}://${host}/r.xsd')
ENUMS = ("it's", 'a"b', 'US$$', 'a\\b', 'back\\', 'ünï', 'x<y', '100%', '{0}', "''", '\\n')


def gen(rng, tier):
    for _ in range(100):
        c = world.gen_case(rng, tier, p_fault=0.3, p_crash=0, fronts=('wsgi',) * 18 + ('flask', 'django'),
                           gopts={'imports': rng.choice([0, 0, 1, 1, 2, 3]), 'tops': 0.3}, max_ops=6)
        svc = c['svc']
        tn = {t['n'] for s in svc['schemas'] for t in s['types']}
        if not any(m['op'] in tn for m in svc['methods']):
            break
    c['segment'] = max(c['segment'], rng.choice([512, 512, 64]))
    c['pieces'] = c['pieces'] and max(c['pieces'], rng.choice([7, 64, 64]))
    svc['loc'] = rng.choice(['${scheme}://${host}/ws', '${scheme}://${host}/a/b', 'http://server/ws', '${scheme}://${host}/', '${scheme}://${host}/a/b/',
                             '${scheme}://${host}/ws?svc=a&v=1', '${scheme}://${host}/ws;p=1?x=%41'])
    for s in svc['schemas']:
        for t in s['types']:
            if t.get('enum') and rng.random() < 0.3:
                t['enum'].append(rng.choice(ENUMS))
        if s['loc'] and rng.random() < 0.3:
            s['loc'] = rng.choice(LOCS) + str(s['id'])
    if rng.random() < 0.2:
        # operations are named freely
        m = rng.choice(svc['methods'])
        new = m['op'] + rng.choice(['-x', '.get', '_2', '-class'])
        for o in c['ops']:
            if o['op'] == m['op']:
                o['op'] = new
        m['op'] = new
    if len(svc['methods']) > 1 and rng.random() < 0.25:
        # names that differ in nothing but case
        a, m = rng.sample(svc['methods'], 2)
        new = rng.choice([a['op'].swapcase(), a['op'].lower(), a['op'].upper(), a['op'][0].swapcase() + a['op'][1:]])
        if new not in {x['op'] for x in svc['methods']} | {t['n'] for s in svc['schemas'] for t in s['types']} and not keyword.iskeyword(new):
            for o in c['ops']:
                if o['op'] == m['op']:
                    o['op'] = new
            m['op'] = new
    nb = rng.choice([1, 2, 2, 3, 4]) if c['front'] == 'wsgi' else rng.choice([1, 2])
    ops, skels = [], []
    for k in range(nb):
        b = {'id': 100 + k, 'client': 10 + k, 'via': 'boot', 'net': rng.choice(NAMES), 'qs': rng.choice(QS), 'target': rng.choice(['client', 'client', 'server']),
             'how': rng.choice(['api', 'main']), 'wait': rng.choice([0, 0, 0, 0.001, 0.02]), 'wsa': rng.random() < 0.1, 'faults': []}
        if rng.random() < 0.5:
            b['faults'] = [world.gen_fault(rng, NETK) if rng.random() < 0.7 else None for _ in range(rng.randint(1, 5))]
            for f in b['faults']:
                if f and f.get('kind') == 'resp_cut' and c['framing'] == 'close':
                    f['part'] = 'body'
        ops.append(b)
        if b['target'] == 'server':
            skels.append(b['id'])
    if nb > 1 and rng.random() < 0.3:
        ops[-1]['client'] = ops[0]['client']     # one after another in one thread
    # calls
    old = c['ops']
    g = spec.Gen(rng)
    calls, n = [], 0
    for o in old:
        o.pop('ih', None) if rng.random() < 0.5 else None
        calls.append(o)
    for b in ops:
        for j in range(rng.choice([1, 2, 2, 3]) + (4 if b['target'] == 'server' else 0)):
            m = rng.choice(svc['methods'])
            sch, e = spec.find_elem(svc, m['in'])
            i = 200 + n
            n += 1
            o = {'id': i, 'client': b['client'], 'op': m['op'], 'arg': g.value(svc, sch, e['type'], cid=f'c{i}'), 'how': 'attr', 'via': 'gen', 'stub': b['id'],
                 'out': world.gen_out(rng, g, svc, m, f'c{i}', 0.12, 0.08)}
            if b['target'] == 'server':
                o['skel'] = b['id']
                o['out'].pop('oh', None)
                cl = [x['id'] for x in ops if x['target'] == 'client' and x['client'] == b['client']]
                if j > 2:
                    o['via'], o['style'] = 'foreign', rng.randrange(1 << 30)
                elif cl and rng.random() < 0.5:
                    o['stub'] = cl[0]
                else:
                    o['via'] = rng.choice(['stub', 'stub', 'foreign'])
                    if o['via'] == 'foreign':
                        o['style'] = rng.randrange(1 << 30)
            if rng.random() < 0.2:
                o['fault'] = world.gen_fault(rng)
            if o['via'] == 'foreign' and (j > 2 or rng.random() < 0.5):
                o.pop('fault', None)
                data, o['mut'] = mutate.message(rng, svc, spec.ref_message(svc, m['in'], o['arg'], spec.Style(rng)), headers=False,
                                             kinds=rng.choice([None, ('stretch', 'stretch', 'text', 'attrval', 'dropattr', 'dup', 'drop')]))
                o['raw'] = mutate.b64(data)
            calls.append(o)
    c['ops'] = ops + calls
    c['deep'] = rng.random() < 0.15
    if rng.random() < 0.08:
        c['crash'] = {'at': rng.choice([0.0005, 0.005, 0.02]), 'down': rng.choice([0.001, 0.05])}
    return c


class Gen:
    """Generated code as a module of its own."""

    def __init__(self, svc, code, name, target):
        self.svc = svc
        self.mod = types.ModuleType(name)
        sys.modules[name] = self.mod
        exec(compile(code, f'<{name}>', 'exec'), self.mod.__dict__)
        ns = vars(self.mod)
        self.services = [x for k, x in ns.items() if k.endswith('_SERVICE')]
        self.stubs = [x for k, x in ns.items() if k.endswith('ServiceStub')]
        self.target = target

    @property
    def service(self):
        return self.services[0]

    def method(self, op):
        return self.service.get_method(op)

    def type(self, op, io):
        m = self.method(op)
        x = m.input if io == 'in' else m.output
        return x if not isinstance(x, str) else self.service.find_element_by_name(x)._type

    def obj(self, op, io, val):
        m = spec.method_of(self.svc, op)
        sch, e = spec.find_elem(self.svc, m[io])
        st = spec.Style()
        st.hoist = False
        return self.type(op, io).parsexml(spec.ref_elem(self.svc, sch, e['name'], e['type'], val, st, top=True))

    def canon(self, op, io, obj):
        from lxml import etree
        m = spec.method_of(self.svc, op)
        sch, e = spec.find_elem(self.svc, m[io])
        t = self.type(op, io)
        if not isinstance(obj, t if isinstance(t, type) else type(t)):
            return {'?': f'a {type(obj).__name__}'}
        x = obj.xml('x', namespace=sch['ns'], elementFormDefault=sch['efd'])
        return spec.fill(self.svc, sch, e['type'], spec.ref_parse(self.svc, sch, e['type'], etree.fromstring(x)))


class W(world.World):
    def __init__(self, case, base):
        super().__init__(case, max_steps=6_000_000)
        self.base = base
        if not case.get('deep'):         # the types are interleaved by C06, C07 and C16
            self.sim.only = c12.CODEGEN + ('/soap.py', '/soap_dispatch.py', '/soap11.py', '/soap12.py', '/core.py')
        self.gens = {}
        self.tries = []          # (op, outcome, harmed)
        self.bad = []
        self.count = 0

    def plan(self, call, attempt, host):
        o = self.ops.get(call)
        if o is not None and o['via'] == 'boot':
            k = o.setdefault('_k', 0)
            o['_k'] += 1
            fs = o['faults']
            return dict(fs[k]) if k < len(fs) and fs[k] else None
        return super().plan(call, attempt, host)

    def start_server(self):
        super().start_server()
        for n in NAMES:
            self.net.serve(n, self.server.deliver)
        if self.case.get('crash'):
            real = self.server.crash

            def crash(*a):
                hosts = [n.split(':')[0] for n in NAMES]
                for n in hosts:
                    self.net.crash(n)
                real(*a)
                self.sim.after(a[0], lambda: self.net.down.difference_update(hosts))
            self.server.crash = crash

    def do(self, o):
        if o['via'] == 'boot':
            return self.boot(o)
        if 'skel' in o and o['skel'] not in self.gens or o['via'] == 'gen' and o['stub'] not in self.gens:
            return {'exc': 'NoCode', 'msg': 'the bootstrap did not succeed'}
        if o['via'] == 'gen':
            return self.do_gen(o)
        return super().do(o)

    # ---- bootstrap
    def path(self):
        return urllib.parse.urlsplit(self.svc['loc'].replace('${scheme}', 'http').replace('${host}', 'h')).path

    def generate(self, o, url):
        from soapfish import utils, wsdl2py
        if o['how'] == 'main':
            out = f'{self.base}/out{o["id"]}.py'
            wsdl2py.main(['-c' if o['target'] == 'client' else '-s'] + (['-w'] if o['wsa'] else []) + [url, out])
            with open(out, 'rb') as f:
                return f.read()
        xml = utils.open_document(url)
        return wsdl2py.generate_code_from_wsdl(xml, o['target'], use_wsa=o['wsa'], cwd=utils.base_location(url) if hasattr(utils, 'base_location') else url)

    def boot(self, o):
        url = f'http://{o["net"]}{self.path()}?{o["qs"]}'
        for n in range(len(o['faults']) + (12 if self.case.get('crash') else 1)):
            before = len(self.net.conns)
            try:
                code = self.generate(o, url)
                err = None
            except Exception as x:
                err = f'{type(x).__name__}: {x}'[:300]
            self.sim.retrace()
            harmed = [c.fault['kind'] for c in self.net.conns[before:] if c.call == o['id'] and c.fault.get('_fired') and c.fault.get('kind') in HARM]
            self.sim.ev('try', o['id'], err is None, *harmed)
            self.tries.append((o, err, harmed))
            if err is not None:
                self.sim.sleep(0.05)
                continue
            self.count += 1
            name = f'dst_boot_{o["id"]}'
            try:
                g = Gen(self.svc, code, name, o['target'])
            except Exception as x:
                self.bad.append(('generated-code-broken', o, f'{type(x).__name__}: {x}\n{code.decode()[:3000]}'))
                return {'exc': 'Broken'}
            if not self.inspect(o, g):
                return {'exc': 'Wrong'}
            if o['target'] == 'server':
                try:
                    self.serve(o, g)
                except Exception as x:
                    self.bad.append(('skeleton-does-not-start', o, f'{type(x).__name__}: {x}'))
                    return {'exc': 'NoStart'}
            self.gens[o['id']] = g
            return {'done': True}
        return {'exc': 'GaveUp'}

    def inspect(self, o, g):
        """Operations and address of what was generated."""
        svc = self.svc

        def bad(kind, text):
            self.bad.append((kind, o, text))
            return False
        if len(g.services) != 1 or (o['target'] == 'client') != (len(g.stubs) == 1):
            return bad('wrong-services', f'{len(g.services)} services, {len(g.stubs)} stubs')
        got = [(m.operationName, m.soapAction) for m in g.service.methods]
        if got != [(m['op'], m['action']) for m in svc['methods']]:
            return bad('wrong-operations', f'{got}')
        if g.service.version.NAME != f'soap{svc["v"]}':
            return bad('wrong-version', g.service.version.NAME)
        for m in svc['methods']:
            gm = g.method(m['op'])
            for io, x in (('in', gm.input), ('out', gm.output)):
                n = x if isinstance(x, str) else spec.unc(x.__name__)
                if n != m[io]:
                    return bad('wrong-message', f'{m["op"]} {io}: {n} instead of {m[io]}')
        want = svc['loc'].replace('${scheme}', 'http').replace('${host}', o['net'])
        if o['target'] == 'client':
            st = g.stubs[0]()
            if st.location != want:
                return bad('wrong-address', f'{st.location} instead of {want}')
        elif urllib.parse.urlsplit(want).path != urllib.parse.urlsplit(g.service.location.replace('${scheme}', 'http').replace('${host}', 'h')).path:
            return bad('wrong-address', f'{g.service.location} instead of {want}')
        return True

    def serve(self, o, g):
        from soapfish import soap_dispatch
        for m in self.svc['methods']:
            g.method(m['op']).function = self.ghandler(g, m)
        app = soap_dispatch.WsgiSoapApplication(soap_dispatch.SOAPDispatcher(g.service, middlewares=self.middlewares()))
        front.Server(self.sim, self.net, app, f'skel{o["id"]}', pieces=self.case.get('pieces', 0), framing=self.case.get('framing', 'length'))

    def ghandler(self, g, m):
        from soapfish import core

        def fn(request, inp):
            t = self.sim.current()
            call = t.data['conn'].call if 'conn' in t.data else None
            rec = {'op': m['op'], 'arg': g.canon(m['op'], 'in', inp) if 'raw' not in self.ops.get(call, {}) else {}, 'call': call}
            self.execs.append(rec)
            cid = rec['arg'].get('cid')
            self.sim.ev('gexec', m['op'], cid)
            o = self.ops.get(rec['call']) or self.by_cid.get(cid if isinstance(cid, str) else None)
            out = o['out'] if o is not None else {'exc': ['RuntimeError', f'unknown cid {cid!r}']}
            self.sim.point('handler')
            if 'ok' not in out:
                return self.produce(None, None, None, None, out)
            try:
                return g.obj(m['op'], 'out', out['ok'])
            except core.SOAPError:
                raise
            except Exception as x:
                if t.aborted is None:
                    self.bad.append(('value-refused', o, f'{type(x).__name__}: {x}: {out["ok"]}'))
                raise
        return fn

    # ---- calls
    def where(self, o):
        return f'http://skel{o["skel"]}{self.path()}' if 'skel' in o else None

    def _stub(self, auth, soap):
        o = self.ops[self.sim.current().call]
        if 'skel' not in o:
            return super()._stub(auth, soap)
        cls = type('DstStub', (soap.Stub,), {'SERVICE': self.cb.service, 'HOST': world.HOST})
        return cls(*(auth or ()), location=self.where(o))

    def stub(self, auth):
        from soapfish import soap
        o = self.ops[self.sim.current().call]
        return self._stub(auth, soap) if 'skel' in o else super().stub(auth)

    def do_foreign(self, o):
        if 'skel' not in o:
            return super().do_foreign(o)
        loc, self.svc['loc'] = self.svc['loc'], self.where(o)
        try:
            h, body = self.request_bytes(o)
        finally:
            self.svc['loc'] = loc
        import requests
        try:
            r = requests.post(self.where(o), data=body, headers=h)
            content = r.content
        except Exception as x:
            self.sim.retrace()
            return {'exc': type(x).__name__, 'msg': str(x)[:300]}
        self.sim.retrace()
        return self.read_answer(o, r.status_code, r.headers.get('Content-Type'), content)

    def do_gen(self, o):
        from soapfish import core
        g = self.gens[o['stub']]
        try:
            arg = g.obj(o['op'], 'in', o['arg'])
        except Exception as x:
            self.sim.retrace()
            self.bad.append(('value-refused', o, f'{type(x).__name__}: {x}: {o["arg"]}'))
            return {'exc': 'Refused', 'msg': ''}
        stub = g.stubs[0](location=self.where(o)) if 'skel' in o else g.stubs[0]()
        fns = next((x for x in ([k for k in vars(g.stubs[0]) if f(k) == f(o['op'])] for f in (str, alnum, ident)) if x), [])
        if len(fns) != 1:
            self.bad.append(('no-such-operation', o, f'{o["op"]} in {[k for k in vars(g.stubs[0]) if k[0] != "_"]}'))
            return {'exc': 'NoMethod', 'msg': ''}
        try:
            r = getattr(stub, fns[0])(arg)
        except core.SOAPError as x:
            self.sim.retrace()
            return {'err': [getattr(x.code, 'value', x.code), x.message, x.actor]}
        except Exception as x:
            self.sim.retrace()
            return {'exc': type(x).__name__, 'msg': str(x)[:300]}
        self.sim.retrace()
        return {'ret': g.canon(o['op'], 'out', r.soap_body), 'oh': None}


def alnum(s):
    return ''.join(ch for ch in s if ch.isalnum())


def ident(s):
    """Operation names up to what a Python name can hold."""
    return alnum(s).lower()


def check(w, v):
    svc = w.svc
    for kind, o, text in w.bad:
        who = f'bootstrap {o["id"]} ({o["target"]} from {o["net"]})' if o['via'] == 'boot' else f'call {o["id"]} {o["op"]}'
        v(kind, f'{who}: {text}')
    good = 0
    for o, err, harmed in w.tries:
        who = f'bootstrap {o["id"]} ({o["target"]} by {o["how"]} from {o["net"]}?{o["qs"]})'
        if harmed and err is None:
            v('code-from-disturbed-description', f'{who}: {harmed} and yet it succeeded')
        elif not harmed and err is not None and not w.case.get('crash'):
            v('undisturbed-bootstrap-failed', f'{who}: {err}')
        good += err is None
    done = judged = 0
    val = None
    for o in w.case['ops']:
        if o['via'] == 'boot':
            continue
        i, out = o['id'], w.outcomes.get(o['id'])
        if out is None or out.get('exc') in ('NoCode', 'Refused', 'NoMethod'):
            continue
        m = spec.method_of(svc, o['op'])
        sch, e = spec.find_elem(svc, m['in'])
        kind = (o.get('fault') or {}).get('kind')
        mine = [x for x in w.execs if x['call'] == i]
        if 'raw' in o:
            val = val or spec.ref_validator(svc)
            for call, cid, body, how in w.net.delivered:
                if call != i or how != 'ok':
                    continue
                ok, why = spec.conforms(svc, body, val)
                if ok is None or ok and why['elem'] != m['in']:
                    continue
                judged += 1
                if ok and not mine:
                    v('skeleton-refused-conforming', f'call {i} {o["op"]} {o["mut"]}: {out}; request {body[:700]!r}')
                elif not ok and (mine or out.get('err', ['x'])[0].rsplit(':', 1)[-1] not in ('Client', 'Sender')):
                    v('skeleton-served-nonconforming', f'call {i} {o["op"]} {o["mut"]}: {out} for {why}; request {body[:700]!r}')
            continue
        for x in mine:
            want = spec.fill(svc, sch, e['type'], o['arg'])
            if x['op'] != o['op'] or spec.fill(svc, sch, e['type'], x['arg']) != want:
                v('handler-got-other-argument', f'call {i} {o["op"]} via {o["via"]}: {x["op"]} got {x["arg"]} instead of {want}')
        if 'ret' in out:
            if kind in c01.DEAD:
                v('value-from-lost-response', f'call {i} ({o["fault"]}) returned {out}')
            elif 'ok' not in o['out']:
                v('value-instead-of-fault', f'call {i}: handler failed with {o["out"]}, caller got {out}')
            elif not mine:
                v('value-without-execution', f'call {i} returned {out}')
            else:
                s2, e2 = spec.find_elem(svc, m['out'])
                want = world.expect(w, o, 'value')
                if spec.fill(svc, s2, e2['type'], out['ret']) != want:
                    v('wrong-value', f'call {i} {o["op"]} via {o["via"]}: returned {out["ret"]} instead of {want}')
                done += o['via'] == 'gen' or 'skel' in o
        elif world.undisturbed(o, w):
            if 'ok' in o['out']:
                v('undisturbed-call-failed', f'call {i} {o["op"]} via {o["via"]}: {out}')
            elif 'soaperr' in o['out'] and ('err' not in out or out['err'][1] != o['out']['soaperr'][1]):
                v('fault-not-delivered', f'call {i} {o["op"]} via {o["via"]}: {out} instead of {o["out"]}')
    w.liveness(v)
    return good, done, judged


def run(case, v):
    for o in case['ops']:
        o.pop('_k', None)
    with Scratch('c14') as base:
        w = W(case, base)
        w.run()
        good, done, judged = check(w, v)
    for o in case['ops']:
        o.pop('_k', None)
        sys.modules.pop(f'dst_boot_{o["id"]}', None)
    calls = [o for o in case['ops'] if o['via'] != 'boot']
    ov = c01.overlap(w)
    return w.result(nontrivial=bool(done and (ov or w.net.fired)), key=f'{w.sim.sig}:{case["seed"]}',
                    probes={'bootstraps_succeeded': good, 'bootstrap_attempts': len(w.tries), 'attempts_harmed': sum(bool(t[2]) for t in w.tries),
                            'values_through_generated_code': done, 'requests_judged': judged, 'handler_executions': len(w.execs)},
                    summary=f'{good} of {len(w.tries)} bootstrap attempts succeeded, {len(calls)} calls, {done} values through generated code, '
                            f'faults {w.net.fired}')
