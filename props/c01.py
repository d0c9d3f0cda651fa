"""C01: concurrent calls over a faulty network return their own answer or raise."""
import random

from dst import spec, world
from dst.seams import STATE

RULE = ('A case is a random service (types, schemas, operations, headers), 1-4 client threads issuing 1-8 calls through stubs or as '
        'a foreign peer writing equivalent XML in another style, a library server (WSGI/Flask/Django) or a reference server, network '
        'faults on about a third of the calls, server crashes, and a seeded schedule. Non-trivial: at least one call completed '
        'with a value compared against the script and either two calls overlapped or a fault fired.')
COMPONENTS = world.components()
QUICK, THOROUGH = 100000, 10000000
QUICK_S, THOROUGH_S = 20, 600
LISTS = ('ops',)
SIMPLER = {'front': 'wsgi', 'pieces': 0, 'framing': 'length', 'segment': 65536, 'crash': None, 'work': False, 'share': False,
           'onestub': False, 'mw': ['fault']}
ASSUMPTIONS = ['The reference codec in dst/spec.py is right about XML Schema lexical forms; it shares no code with the library.',
               'A response whose XML is cut after its last element is indistinguishable from a complete one, so cuts fall before it.']


def gen(rng, tier):
    c = world.gen_case(rng, tier)
    if rng.random() < 0.3:
        c['peer'] = 'ref'
        c['crash'] = None
        c['front'] = 'wsgi'
        for o in c['ops']:
            o['via'] = 'stub'
            o['rstyle'] = rng.randrange(1 << 30)
            for k in ('noact', 'alt', 'quoted', 'style'):
                o.pop(k, None)
            if 'exc' in o['out']:
                o['out'] = {'soaperr': ['S', 'x' + str(o['id']), None]}
    return c


class RefWorld(world.World):
    """A peer that shares nothing with the library answers."""

    def make_app(self):
        svc = self.svc
        val = spec.ref_validator(svc)

        def app(env, sr):
            body = env['wsgi.input'].read(int(env.get('CONTENT_LENGTH') or 0))
            t = self.sim.current()
            self.sim.point('ref')
            ok, p = spec.conforms(svc, body, val)
            ct = 'text/xml; charset=utf-8' if svc['v'] == 11 else 'application/soap+xml; charset=utf-8'
            if not ok:
                self.events.append(('nonconforming', t.data['conn'].call, p))
                sr('500 Internal Server Error', [('Content-Type', ct)])
                return [self.fault('C', 'bad request ' + str(p)[:200].replace('<', ''), random.Random(1))]
            if svc['v'] == 11:
                act = (env.get('HTTP_SOAPACTION') or '').strip('"')
            else:
                import re
                mm = re.search(r'action="([^"]*)"', env.get('CONTENT_TYPE', ''))
                act = mm.group(1) if mm else ''
            m = next((x for x in svc['methods'] if x['action'] == act), None)
            if m is None or m['in'] != p['elem']:
                self.events.append(('bad-action', t.data['conn'].call, f'{act!r} {p["elem"]}'))
                m = next(x for x in svc['methods'] if x['in'] == p['elem'])
            sch, e = spec.find_elem(svc, m['in'])
            arg = spec.ref_parse(svc, sch, e['type'], p['node'])
            conn = t.data['conn']
            self.execs.append({'op': m['op'], 'arg': spec.fill(svc, sch, e['type'], arg),
                               'hdr': world.fill_hdr(svc, m['ih'], spec.read_header(svc, m['ih'] or [], p['header_xml'])),
                               'auth': env.get('HTTP_AUTHORIZATION'), 'delivery': t.data['delivery'], 'conn': conn.cid,
                               'call': conn.call, 'nohdr': p['header_xml'] is None})
            o = self.by_cid[arg['cid']]
            rr = random.Random(o['rstyle'])
            if 'soaperr' in o['out']:
                sr('500 Internal Server Error', [('Content-Type', ct)])
                return [self.fault(o['out']['soaperr'][0], o['out']['soaperr'][1], rr)]
            st = spec.Style(rr)
            sr('200 OK', [('Content-Type', ct)])
            return [spec.ref_message(svc, m['out'], o['out']['ok'], st, o['out'].get('oh'))]

        self.built = None
        return app

    def fault(self, c, msg, rr):
        svc = self.svc
        env = spec.ENV[svc['v']]
        code = world.code_of(svc, c)
        p = rr.choice(['s', 'SOAP-ENV', 'e'])
        if svc['v'] == 11:
            inner = f'<faultcode>{p}:{code}</faultcode><faultstring>{spec.esc(msg)}</faultstring>'
        else:
            inner = (f'<{p}:Code><{p}:Value>{p}:{code}</{p}:Value></{p}:Code><{p}:Reason><{p}:Text xml:lang="en">{spec.esc(msg)}'
                     f'</{p}:Text></{p}:Reason>')
        return (f'<{p}:Envelope xmlns:{p}="{env}"><{p}:Body><{p}:Fault>{inner}</{p}:Fault></{p}:Body></{p}:Envelope>').encode()

    def prepare(self):
        self.start_server()
        self.cb = spec.build(self.svc)


DEAD = ('refuse', 'dns', 'unreachable', 'rst_on_send', 'req_lost', 'gw', 'resp_lost', 'resp_cut', 'resp_damage', 'req_cut',
        'req_damage')


def check(w, v):
    svc = w.svc
    done = 0
    for o in w.case['ops']:
        i = o['id']
        out = w.outcomes.get(i)
        m = spec.method_of(svc, o['op'])
        sch, e = spec.find_elem(svc, m['in'])
        kind = (o.get('fault') or {}).get('kind')
        if out is None:
            continue
        for x in w.execs:
            if x['call'] != i:
                continue
            want = spec.fill(svc, sch, e['type'], o['arg'])
            if x['arg'] != want:
                v('handler-got-other-argument', f'call {i} {o["op"]}: handler got {x["arg"]} instead of {want}')
            wh = world.fill_hdr(svc, m['ih'], o.get('ih')) if m['ih'] else None
            if (x['hdr'] or None) != (wh or None):
                v('handler-got-other-header', f'call {i} {o["op"]}: header {x["hdr"]} instead of {wh}')
            if x['auth'] != world.basic(o.get('auth'), o['via']):
                v('handler-got-other-credentials', f'call {i}: {x["auth"]!r} instead of {world.basic(o.get("auth"), o["via"])!r}')
        if 'ret' in out:
            mine = [x for x in w.execs if x['call'] == i]
            if kind in DEAD:
                v('value-from-lost-response', f'call {i} ({o["fault"]}) returned {out}')
            elif 'ok' not in o['out']:
                v('value-instead-of-fault', f'call {i}: handler failed with {o["out"]}, caller got {out}')
            elif not mine:
                v('value-without-execution', f'call {i} returned {out}')
            else:
                want = world.expect(w, o, 'value')
                if out['ret'] != want:
                    v('wrong-value', f'call {i} {o["op"]}: returned {out["ret"]} instead of {want}')
                wh = world.fill_hdr(svc, m['oh'], o['out'].get('oh')) if m['oh'] else None
                if (out['oh'] or None) != (wh or None):
                    v('wrong-response-header', f'call {i} {o["op"]}: {out["oh"]} instead of {wh}')
                done += 1
        else:
            if 'ok' in o['out'] and world.undisturbed(o, w):
                v('undisturbed-call-failed', f'call {i} {o["op"]}: {out}')
    for k, c, d in w.events:
        if (w.ops[c].get('fault') or {}).get('kind') in ('req_cut', 'req_damage'):
            continue
        v(k, f'request of call {c}: {d}')
    w.liveness(v)
    return done


def overlap(w):
    iv = sorted((w.started[i], w.ended[i]) for i in w.ended)
    return any(b[0] < a[1] for a, b in zip(iv, iv[1:]))


def run(case, v):
    w = (RefWorld if case.get('peer') == 'ref' else world.World)(case)
    w.run()
    done = check(w, v)
    ov = overlap(w)
    return w.result(nontrivial=bool(done and (ov or w.net.fired)), key=f'{w.sim.sig}:{case["seed"]}',
                    probes={'values_compared': done, 'overlapping_runs': int(ov), 'handler_executions': len(w.execs),
                            'reference_peer_runs': int(case.get('peer') == 'ref'), 'escapes': len(STATE.escapes)},
                    summary=f'{len(case["ops"])} calls, {len(w.execs)} executions, {done} values compared, faults {w.net.fired}')
