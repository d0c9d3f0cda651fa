"""The RPC world: client threads, a faulty network and a server process, all described by a JSON case.

``World(case).run()`` executes it; afterwards ``outcomes`` (what each call gave its caller), ``execs`` (which handlers ran
with what), ``net`` (what was transmitted and delivered) and ``server.responses`` hold the recorded history.
"""
import base64
import json
import random

from . import front, spec
from .net import Net
from .sched import Sim
from .seams import CLK, STATE

HOST = 'server'
EXCS = {'ValueError': ValueError, 'KeyError': KeyError, 'RuntimeError': RuntimeError, 'ZeroDivisionError': ZeroDivisionError,
        'AttributeError': AttributeError, 'TypeError': TypeError, 'OSError': OSError, 'UnicodeError': UnicodeError,
        'NotImplementedError': NotImplementedError, 'AssertionError': AssertionError, 'MemoryError': MemoryError,
        'StopIteration': StopIteration, 'RecursionError': RecursionError}
EXC_ARGS = [[], [], [None], [''], ['two', 'words'], [5], [2, 'No such file'], [['a'], {'b': 1}]]


def make_exc(out):
    name, msg = out['exc']
    return EXCS[name](*out.get('args', [msg]))


# ------------------------------------------------------------------ generating cases
def gen_sched(rng, hot=True):
    d = {'mode': 'rand', 'seed': rng.randrange(1 << 30), 'p': rng.choice([0.0, 0.002, 0.01, 0.05, 0.2])}
    x = rng.random()
    if hot and x < 0.15:
        d['hot'] = [rng.choice([4, 9]), rng.randrange(1 << 16)]
        d['p'] = rng.choice([0.0, 0.005])
    elif hot and x < 0.4:
        d['write'] = [rng.choice([1, 1, 2, 3, 5]), rng.randrange(1 << 16)]
        d['p'] = rng.choice([0.0, 0.0, 0.002])
    elif hot and x < 0.75:
        d['park'] = rng.choice([[3, 1], [3, 2], [2, 4], [1, 6], [1, 12]]) + [rng.randrange(1 << 16)]
        d['p'] = rng.choice([0.0, 0.0, 0.005])
    return d


NETF = ('refuse', 'dns', 'unreachable', 'rst_on_send', 'req_lost', 'req_cut', 'req_damage', 'gw', 'dup', 'delay', 'resp_lost',
        'resp_cut', 'resp_damage')


def gen_fault(rng, kinds=NETF):
    k = rng.choice(kinds)
    f = {'kind': k}
    end = rng.choice(['eof', 'rst'])
    if k == 'delay':
        f = {'delay': rng.choice([0.0, 0.01, 0.5, 30.0]), 'rdelay': rng.choice([0.0, 0.02, 1.0, 90.0])}
    elif k in ('req_lost', 'resp_lost'):
        f['end'] = end
    elif k == 'req_cut':
        f['at'] = rng.choice([0, 1, -1, -2, rng.randrange(2000), rng.randrange(400)])
        f['end'] = end
    elif k == 'resp_cut':
        f['at'] = rng.randrange(100000)
        f['part'] = rng.choice(['body', 'body', 'body', 'head'])
        f['end'] = end
    elif k in ('req_damage', 'resp_damage'):
        f['how'] = rng.choice(['nul', 'zero_tail', 'gzip'])
        f['at'] = rng.randrange(100000)
    elif k == 'gw':
        f['page'] = rng.choice(['html', 'xhtml', 'empty', 'json', 'text', 'xml', 'loop'])
        f['status'] = rng.choice([200, 400, 403, 404, 408, 413, 429, 500, 502, 503, 504])
        f['after'] = rng.random() < 0.5
    elif k == 'dup':
        f['gap'] = rng.choice([0.0, 0.0005, 0.01, 5.0])
        f['answer'] = rng.choice([0, 1])
    if k != 'delay' and rng.random() < 0.3:
        f['delay'] = rng.choice([0.0005, 0.01, 0.3])
    return f


MSGS = ('boom', 'no such item', 'R&D <x> "q"', 'ünï 日本', 'a\nb', ' spaced ', '50% off', '{0} $host', ']]>', 'x' * 400, 'long ' * 700, '0', 'None',
        '<b>not markup</b>', 'tab\there', 'emoji 😀')


def gen_out(rng, g, svc, m, cid, p_fault=0.25, p_exc=0.12):
    x = rng.random()
    if x < p_fault:
        codes = ['C', 'S', 'C', 'S', 'VM', 'MU'] if svc['v'] == 11 else ['C', 'S', 'C', 'S', 'VM', 'DE']
        return {'soaperr': [rng.choice(codes), rng.choice(MSGS) + f' {cid}', rng.choice([None, None, 'urn:actor'])]}
    if x < p_fault + p_exc:
        return {'exc': [rng.choice(sorted(EXCS)), rng.choice(MSGS) + f' {cid}']}
    sch, e = spec.find_elem(svc, m['out'])
    out = {'ok': g.value(svc, sch, e['type'], cid=cid)}
    if m['oh'] and rng.random() < 0.7:
        out['oh'] = g.header(svc, m['oh'])
    return out


def gen_case(rng, tier, gopts=None, max_clients=4, max_ops=8, p_fault=0.35, faults=NETF, p_foreign=0.3, p_soaperr=0.2,
             p_exc=0.1, fronts=('wsgi',) * 14 + ('flask', 'django'), p_crash=0.1, p_noact=0.3):
    g = spec.Gen(rng, **dict({'cls_messages': True, 'subst': True, 'tops': 0.2, 'swap': True, 'svc_headers': True}, **(gopts or {})))
    svc = g.service()
    nc = min(max_clients, rng.choice([1, 2, 2, 3, 3, 4, 5]))
    nops = rng.randint(min(nc, max_ops), max_ops)
    ops = []
    for i in range(nops):
        m = rng.choice(svc['methods'])
        sch, e = spec.find_elem(svc, m['in'])
        cid = f'c{i}'
        op = {'id': i, 'client': i if i < nc else rng.randrange(nc), 'op': m['op'], 'arg': g.value(svc, sch, e['type'], cid=cid),
              'out': gen_out(rng, g, svc, m, cid, p_soaperr, p_exc), 'via': 'stub', 'how': rng.choice(['attr', 'attr', 'kw', 'kw', 'lex'])}
        if m['ih'] and rng.random() < 0.7:
            op['ih'] = g.header(svc, m['ih'])
        if rng.random() < 0.25:
            op['auth'] = rng.choice([['user', 'pass'], ['bob', 's3cret:with:colons'], ['é', 'pw'], ['anon', ''], [f'u{i}', f'p{i}']])
        if rng.random() < p_foreign:
            op['via'] = 'foreign'
            op['style'] = rng.randrange(1 << 30)
            if rng.random() < 0.06:
                op['qs'] = rng.choice(['wsdl', 'singleWsdl', 'xsd=s0.xsd', 'xsd', 'x=1', 'wsdl&%ff', 'wsdl='])
            alt = [x['name'] for s in svc['schemas'] for x in s['elements'] if x.get('subst') == m['in']]
            if rng.random() < p_noact:
                op['noact'] = rng.choice(['absent', 'empty'])
                if alt and rng.random() < 0.6:
                    op['alt'] = alt[0]
            elif svc['v'] == 11 and rng.random() < 0.5:
                op['quoted'] = True
        if rng.random() < p_fault:
            op['fault'] = gen_fault(rng, faults)
        ops.append(op)
    case = {'seed': rng.randrange(1 << 30), 'svc': svc, 'front': rng.choice(fronts), 'sched': gen_sched(rng), 'ops': ops,
            'pieces': rng.choice([0, 0, 0, 1, 7, 64]), 'framing': rng.choice(['length', 'length', 'chunked', 'close']),
            'segment': rng.choice([65536] * 9 + [512] * 3 + [13, 1]), 'share': rng.random() < 0.3, 'onestub': rng.random() < 0.5,
            'mw': rng.choice([['fault'], ['fault', 'logger'], ['logger', 'fault'], ['fault', 'pass']]), 'work': rng.random() < 0.3, 'stub': rng.choice(['class', 'class', 'class', 'str', 'call']), 'spoil': rng.random() < 0.4}
    if case['pieces'] == 1:
        case['pieces'] = 3
    if case['front'] != 'wsgi':          # a dispatcher per request: slow, so fewer switches and calls
        case['sched']['p'] = min(case['sched']['p'], 0.01)
        del case['ops'][4:]
    if rng.random() < p_crash:
        case['crash'] = {'at': rng.choice([0.0005, 0.002, 0.005, 0.02]), 'down': rng.choice([0.001, 0.01, 1.0])}
    return case


def relate(rng, c, p, mutate):
    """Turn some requests into near-duplicates of earlier ones: repeated, changed in one place, repaired, sent to another action."""
    svc = c['svc']
    old = [o for o in c['ops'] if o['via'] == 'foreign' and 'get' not in o]
    for k, o in enumerate(old):
        if not k or rng.random() > p:
            continue
        b = old[rng.randrange(k)]
        n = dict(json.loads(json.dumps(b)), id=o['id'], client=o['client'] if rng.random() < 0.5 else b['client'])
        n.pop('fault', None)
        if isinstance(n['out'].get('ok'), dict) and 'cid' in n['out']['ok']:
            n['out']['ok']['cid'] = f'c{o["id"]}'
        m = spec.method_of(svc, n['op'])
        x = rng.random()
        style = spec.Style(random.Random(n['style'])) if n.get('style') is not None else None
        src = base64.b64decode(n['raw']) if 'raw' in n else spec.ref_message(svc, n.get('alt') or m['in'], n['arg'], style, n.get('ih'))
        if x < 0.25:
            pass
        elif x < 0.4 and 'raw' in n:
            n.pop('raw')
            n['mut'] = ['related:repaired']
        elif x < 0.5:
            n.pop('noact', None)
            if 'noact' not in b:
                n['noact'] = 'absent'
        else:
            try:
                data, labels = mutate.message(rng, svc, src, n=1, kinds=rng.choice([None, None, ('attrval', 'dropattr', 'addattr', 'nil', 'xsitype'), ('text',)]))
            except Exception:
                continue
            n['raw'] = base64.b64encode(data).decode()
            n['mut'] = ['related'] + labels + (n['mut'] if isinstance(n.get('mut'), list) else [])
        c['ops'][c['ops'].index(o)] = n
        old[k] = n


def code_of(svc, c):
    if svc['v'] == 11:
        return {'C': 'Client', 'S': 'Server', 'VM': 'VersionMismatch', 'MU': 'MustUnderstand'}[c]
    return {'C': 'Sender', 'S': 'Receiver', 'VM': 'VersionMismatch', 'DE': 'DataEncodingUnknown'}[c]


def code_value(svc, c):
    """What the wire (and so the peer's SOAPError.code) carries for an abstract code."""
    from soapfish import soap
    ver = soap.SOAPVersion.SOAP11 if svc['v'] == 11 else soap.SOAPVersion.SOAP12
    if c == 'C':
        return ver.Code.CLIENT
    if c == 'S':
        return ver.Code.SERVER
    return code_of(svc, c) if svc['v'] == 11 else 'ns0:' + code_of(svc, c)


# ------------------------------------------------------------------ the world
class World:
    BY_CONN = False

    def __init__(self, case, max_steps=3_000_000):
        self.case = case
        self.svc = case['svc']
        self.sim = Sim(case.get('sched'), max_steps=max_steps)
        self.ops = {o['id']: o for o in case['ops']}
        self.by_cid = {o['arg']['cid']: o for o in case['ops'] if isinstance(o.get('arg'), dict)}
        self.execs = []
        self.outcomes = {}
        self.net = Net(self.sim, self.plan, segment=case.get('segment', 65536))
        self.events = []
        self.sent = {}
        self.started = {}
        self.herr = []           # exceptions of the harness's own handler code
        self.ended = {}

    def plan(self, call, attempt, host):
        o = self.ops.get(call)
        if o is None or attempt:
            return None
        return o.get('fault')

    # ---- server side
    def handler(self, b, m):
        from soapfish import core
        svc = self.svc
        sch, e = spec.find_elem(svc, m['in'])
        sch2, e2 = spec.find_elem(svc, m['out'])
        meth = next(x for x in b.methods if x.operationName == m['op'])

        def fn(request, inp):
            t = self.sim.current()
            env = request.environ
            rec = {'op': m['op'], 'arg': spec.from_obj(b, sch, e['type'], inp), 'hdr': spec.hdr_from(b, m['ih'] or [], request.soap_header),
                   'nohdr': request.soap_header is None, 'auth': env.get('HTTP_AUTHORIZATION'),
                   'delivery': t.data.get('delivery') if t is not None else None,
                   'conn': t.data['conn'].cid if t is not None and 'conn' in t.data else None,
                   'call': t.data['conn'].call if t is not None and 'conn' in t.data else None}
            self.execs.append(rec)
            cid = rec['arg'].get('cid') if isinstance(rec['arg'], dict) else None
            if self.case.get('spoil'):
                # a handler may do with its argument what it likes
                request.seen = json.dumps([rec['arg'], rec['hdr']], sort_keys=True)
                spec.spoil(b, sch, e['type'], inp)
                for x in (m['ih'] or []) if request.soap_header is not None else []:
                    setattr(request.soap_header, x, None)
            self.sim.ev('exec', m['op'], cid, rec['delivery'])
            if self.BY_CONN and rec['call'] in self.ops:      # a mutation may have changed the correlation id
                o = self.ops[rec['call']]
            else:
                o = self.by_cid.get(cid if isinstance(cid, str) else None)
            # a damaged request can name another operation than it was written for
            out = o['out'] if o is not None and o.get('op', m['op']) == m['op'] else {'exc': ['RuntimeError', f'unknown cid {cid!r}']}
            if self.case.get('work'):
                self.sim.sleep((zwork(cid) % 7) * 0.001)
            else:
                self.sim.point('handler')
            try:
                return self.produce(b, sch2, e2, meth, out)
            except core.SOAPError:
                raise
            except Exception as x:
                if 'exc' not in out and (t is None or t.aborted is None):
                    self.herr.append(x)
                raise

        return fn

    def produce(self, b, sch2, e2, meth, out):
        from soapfish import core
        if 'soaperr' in out:
            c, msg, actor = out['soaperr']
            x = core.SOAPError(code_value(self.svc, c), msg, actor)
            if 'fstat' in out:
                return core.SOAPResponse(x, http_status_code=out['fstat'])
            raise x
        if 'exc' in out:
            raise make_exc(out)
        o = spec.to_obj(b, sch2, e2['type'], out['ok'])
        if 'hh' in out:
            return core.SOAPResponse(o, soap_header=spec.hdr_obj(b, meth.output_header or b.service.output_header, out['oh']) if 'oh' in out else None, http_headers=dict(out['hh']))
        if 'oh' in out:
            return core.SOAPResponse(o, soap_header=spec.hdr_obj(b, meth.output_header or b.service.output_header, out['oh']))
        if out.get('wrap'):
            return core.SOAPResponse(o)
        return o

    def middlewares(self):
        from soapfish import middlewares
        out = []
        for n in self.case.get('mw', ['fault']):
            if n == 'fault':
                out.append(middlewares.ExceptionToSoapFault())
            elif n == 'logger':
                out.append(middlewares.ExceptionLogger())
            elif n == 'pass':
                out.append(lambda request, next_call: next_call(request))
        return out

    def make_app(self):
        b = spec.build(self.svc)
        for m in self.svc['methods']:
            next(x for x in b.methods if x.operationName == m['op']).function = self.handler(b, m)
        self.built = b
        kw = dict(middlewares=self.middlewares())
        if self.case.get('strict') is False:
            kw['strict_soap_header'] = False
        kw.update(self.extra_dispatch())
        return front.FRONTS[self.case.get('front', 'wsgi')](b.service, **kw)

    def extra_dispatch(self):
        return {}

    def start_server(self):
        c = self.case
        self.server = front.Server(self.sim, self.net, self.make_app(), HOST, pieces=c.get('pieces', 0),
                                   framing=c.get('framing', 'length'))
        for k, ab in (c.get('aborts') or {}).items():
            self.server.aborts[int(k)] = tuple(ab)
        if c.get('crash'):
            self.sim.after(c['crash']['at'], lambda: self.server.crash(c['crash']['down'], self.make_app))

    # ---- client side
    def stub(self, auth):
        from soapfish import soap
        k = tuple(auth) if auth else None
        if self.case.get('onestub'):
            if k not in self.stubs:
                self.stubs[k] = self._stub(auth, soap)
            return self.stubs[k]
        return self._stub(auth, soap)

    def _stub(self, auth, soap):
        cls = type('DstStub', (soap.Stub,), {'SERVICE': self.cb.service, 'HOST': HOST})
        kw = {'username': auth[0], 'password': auth[1]} if auth else {}
        style = self.case.get('stub')
        if style == 'str':
            return soap.Stub(service=self.cb.service, location=self.svc['loc'].replace('${scheme}', 'http').replace('${host}', HOST), **kw)
        if style == 'call':
            cls.HOST = 'nowhere.example'
            return cls(location=lambda template, context: template.replace('${scheme}', context['scheme']).replace('${host}', HOST), **kw)
        return cls(**kw)

    def client_task(self, ops):
        for o in ops:
            t = self.sim.current()
            t.call, t.attempt = o['id'], 0
            if o.get('wait'):
                self.sim.sleep(o['wait'])
            self.started[o['id']] = CLK.t
            self.sim.ev('call', o['id'])
            self.outcomes[o['id']] = out = self.do(o)
            self.ended[o['id']] = CLK.t
            self.sim.ev('ret', o['id'], 'val' if 'ret' in out else out.get('exc', 'fault'))
            t.call = None

    def do(self, o):
        if o['via'] == 'stub':
            return self.do_stub(o)
        return self.do_foreign(o)

    def do_stub(self, o):
        from soapfish import core
        cb, svc = self.cb, self.svc
        m = spec.method_of(svc, o['op'])
        sch, e = spec.find_elem(svc, m['in'])
        sch2, e2 = spec.find_elem(svc, m['out'])
        meth = next(x for x in cb.methods if x.operationName == m['op'])
        arg = spec.to_obj(cb, sch, e['type'], o['arg'], o.get('how', 'attr'))
        hdr = spec.hdr_obj(cb, meth.input_header or cb.service.input_header, o['ih']) if 'ih' in o else None
        stub = self.stub(o.get('auth'))
        try:
            r = stub.call(o['op'], arg, header=hdr)
        except core.SOAPError as x:
            self.sim.retrace()
            return {'err': [getattr(x.code, 'value', x.code), x.message, x.actor]}
        except Exception as x:
            self.sim.retrace()
            return {'exc': type(x).__name__, 'msg': str(x)[:300]}
        self.sim.retrace()
        if not isinstance(r, core.SOAPResponse):
            return {'ret': {'?': repr(r)}}
        return {'ret': spec.from_obj(cb, sch2, e2['type'], r.soap_body), 'oh': spec.hdr_from(cb, m['oh'] or [], r.soap_header)}

    def request_bytes(self, o):
        """Foreign request: (url path, headers, body)."""
        svc = self.svc
        m = spec.method_of(svc, o['op'])
        if 'raw' in o:
            body = base64.b64decode(o['raw'])
        else:
            st = spec.Style(random.Random(o['style'])) if o.get('style') is not None else spec.Style()
            body = spec.ref_message(svc, o.get('alt') or m['in'], o['arg'], st, o.get('ih'))
        h = {}
        act = '' if o.get('noact') == 'empty' else m['action']
        if 'action' in o:
            act = o['action']
        if svc['v'] == 11:
            h['Content-Type'] = o.get('ct', 'text/xml; charset=utf-8')
            if o.get('noact') != 'absent':
                h['SOAPAction'] = f'"{act}"' if o.get('quoted') or o.get('noact') == 'empty' else act
        else:
            h['Content-Type'] = o.get('ct', 'application/soap+xml' + ('' if o.get('noact') else f'; action="{act}"'))
        h.update(o.get('headers') or {})
        return h, body

    def do_foreign(self, o):
        import requests
        h, body = self.request_bytes(o)
        loc = self.svc['loc'].replace('${scheme}', 'http').replace('${host}', HOST)
        if o.get('qs'):
            loc += ('&' if '?' in loc else '?') + o['qs']
        try:
            r = requests.request(o.get('method', 'POST'), loc, data=body, headers=h,
                                 auth=tuple(x.encode('utf-8') for x in o['auth']) if o.get('auth') else None)
            content = r.content
        except Exception as x:
            self.sim.retrace()
            return {'exc': type(x).__name__, 'msg': str(x)[:300]}
        self.sim.retrace()
        return self.read_answer(o, r.status_code, r.headers.get('Content-Type'), content)

    def read_answer(self, o, status, ct, content):
        svc = self.svc
        m = spec.method_of(svc, o['op'])
        sch2, e2 = spec.find_elem(svc, m['out'])
        base = {'status': status, 'ct': ct}
        try:
            p = spec.parse_envelope(svc, content)
        except ValueError as x:
            return dict(base, exc='NotSOAP', msg=str(x)[:300])
        if 'fault' in p:
            return dict(base, err=[p['fault']['code'], p['fault']['msg'], None])
        if p['elem'] != m['out']:
            return dict(base, ret={'?': f'element {p["elem"]}'}, oh=None)
        return dict(base, ret=spec.ref_parse(svc, sch2, e2['type'], p['node']), oh=spec.read_header(svc, m['oh'] or [], p['header_xml']))

    # ---- run
    def run(self):
        STATE.net = self.net
        self.stubs = {}
        self.prepare()
        by = {}
        for o in self.case['ops']:
            by.setdefault(o['client'], []).append(o)
        for c in sorted(by):
            self.sim.spawn(f'client{c}', lambda ops=by[c]: self.client_task(ops), host=f'client{c}')
        self.stuck = self.sim.run()
        STATE.net = None
        if self.herr:
            raise self.herr[0]
        for t in self.sim.tasks:
            if t.name.startswith('client') and t.exc is not None and type(t.exc).__name__ not in ('StepLimit',):
                raise t.exc
        return self

    def prepare(self):
        self.start_server()
        if self.case.get('share'):
            self.cb = self.built
        else:
            self.cb = spec.build(self.svc)

    def result(self, **k):
        s = self.sim
        faults = dict(self.net.fired)
        if s.aborts_fired:
            faults['abort'] = s.aborts_fired
        d = {'sig': s.sig, 'simt': CLK.t, 'steps': s.steps, 'npre': s.npreempt, 'faults': faults, 'record': s.record,
             'log': [list(x) for x in s.log][:400]}
        d.update(k)
        return d

    def liveness(self, v):
        if self.stuck:
            v('stuck', self.stuck)
        if self.sim.overrun:
            v('no-progress', f'more than {self.sim.max_steps} steps')


def zwork(cid):
    import zlib
    return zlib.crc32(str(cid).encode())


# ------------------------------------------------------------------ expectations shared by properties
def undisturbed(o, world):
    """Nothing happened to this call that could keep it from completing."""
    f = o.get('fault') or {}
    k = f.get('kind')
    if k in (None, 'dup') and not world.case.get('crash'):
        return True
    return False


def expect(world, o, mode):
    """mode 'value': the canonical response a successful call must give; None when it may not succeed at all."""
    svc = world.svc
    m = spec.method_of(svc, o['op'])
    sch2, e2 = spec.find_elem(svc, m['out'])
    return spec.fill(svc, sch2, e2['type'], o['out']['ok'])


def fill_hdr(svc, names, hv):
    if hv is None:
        return None
    out = {}
    for n, x in hv.items():
        sch, e = spec.find_elem(svc, n)
        out[n] = x if e.get('simple') else spec.fill(svc, sch, e['type'], x)
    return out


def basic(auth, via='stub'):
    if not auth:
        return None
    enc = 'utf-8' if via == 'foreign' else 'latin-1'
    return 'Basic ' + base64.b64encode(b':'.join(x.encode(enc) for x in auth)).decode()


def components(front=True):
    return {'real': ['soapfish (client stub, dispatcher, middlewares, xsd, py2xsd, py2wsdl)', 'lxml/libxml2', 'requests + urllib3 + '
                     'http.client', 'Flask/Werkzeug and Django request handling where that front end is drawn'],
            'stub': ['TCP (simulated sockets with planned faults)', 'the HTTP server loop calling the WSGI application', 'thread '
                     'scheduler (baton, seeded)', 'clocks, randomness']}
