"""C04: every delivered request gets exactly one complete, well-formed answer."""
import re

from dst import mutate, spec, world

RULE = ('A case is a random service and 1-8 POSTs from concurrent clients whose bytes are conforming, structurally mutated, or corrupted '
        'at byte level (32 kinds), with odd actions and content types, handlers raising anything with any text, bodies cut or reset on '
        'the way. Non-trivial: at least two deliveries of which one was not a conforming request or its handler failed.')
COMPONENTS = world.components()
QUICK, THOROUGH, QUICK_S, THOROUGH_S = 100000, 10000000, 40, 600
LISTS = ('ops',)
SIMPLER = {'front': 'wsgi', 'pieces': 0, 'framing': 'length', 'segment': 65536, 'crash': None, 'work': False, 'share': False}
HANG_IS_VIOLATION = True
ASSUMPTIONS = ['The dispatcher has ExceptionToSoapFault among its middlewares, as the property says.']
ODD = ('\x00', 'a\x01b', '\x1b[31m', '\ud800', 'x\ufffey', '\x7f', '\x85', '\r\n', '', ' ', '\uffff', 'é' * 50, '<![CDATA[', '&#0;', '\x0b')


def gen(rng, tier):
    c = world.gen_case(rng, tier, p_fault=0.2, p_foreign=1.0, p_crash=0, p_soaperr=0.25, p_exc=0.25,
                       faults=('req_cut', 'req_cut', 'req_damage', 'delay', 'dup', 'resp_lost'), fronts=('wsgi',) * 10 + ('flask', 'django'))
    svc = c['svc']
    c['mw'] = rng.choice([['fault'], ['fault', 'logger'], ['fault', 'pass'], ['tbfault'], ['pass', 'fault']])
    for o in c['ops']:
        if rng.random() < 0.55:
            m = spec.method_of(svc, o['op'])
            data = spec.ref_message(svc, m['in'], o['arg'], spec.Style(rng) if rng.random() < 0.5 else None, o.get('ih'))
            data, label = mutate.raw(rng, svc, data)
            o['raw'] = mutate.b64(data)
            o['mut'] = label
        out = o['out']
        for k, i in (('soaperr', 1), ('exc', 1)):
            if k in out and rng.random() < 0.4:
                out[k][i] = rng.choice(ODD) + out[k][i] * rng.choice([0, 1])
        if 'exc' in out and rng.random() < 0.2:
            out['args'] = rng.choice(world.EXC_ARGS)
        if 'soaperr' in out and rng.random() < 0.2:
            out['soaperr'][1] = rng.choice([None, 5, ['a', 'b'], {'k': 'v'}, 1.5, True])
        if 'soaperr' in out and rng.random() < 0.15:
            out['fstat'] = rng.choice([200, 202, 400, 404, 500, 503])
        if 'ok' in out and rng.random() < 0.15:
            out['hh'] = {rng.choice(['Content-Type', 'X-Cost', 'X-A']): rng.choice(['application/json', 'text/plain; charset=ascii', '7']),
                         'X-Op': str(o['id'])}
        if rng.random() < 0.12:
            o.pop('noact', None)
            o['action'] = rng.choice(['x', 'urn:unknown', 'a b', 'a;b', "o'clock", 'a\\b', '=', 'action', '%00', 'é', '<a>', 'x' * 3000, '&', 'a,b'])
        if rng.random() < 0.12:
            o['ct'] = rng.choice(['text/plain', 'application/octet-stream', 'text/xml', 'application/soap+xml', 'application/soap+xml;',
                                  'application/soap+xml; action', 'application/soap+xml; action=', 'application/soap+xml; action="',
                                  'multipart/form-data; boundary=x', 'application/x-www-form-urlencoded', ';', 'text/xml; charset="', 'é'])
            if svc['v'] == 11 and rng.random() < 0.5:
                o['ct'] = 'text/xml; charset=' + rng.choice(['utf-16', 'bogus', 'latin-1'])
    world.relate(rng, c, 0.15, mutate)
    return c


class W(world.World):
    BY_CONN = True

    def middlewares(self):
        from soapfish import middlewares as mws
        out = []
        for n in self.case['mw']:
            out.append({'fault': lambda: mws.ExceptionToSoapFault(), 'tbfault': lambda: mws.ExceptionToSoapFault(traceback=True),
                        'logger': lambda: mws.ExceptionLogger(), 'pass': lambda: (lambda r, next_call: next_call(r))}[n]())
        return out

    def read_answer(self, o, status, ct, content):
        return {'status': status, 'ct': ct}

    def produce(self, b, sch2, e2, meth, out):
        if 'soaperr' in out:
            out = dict(out, soaperr=[out['soaperr'][0], tuple(out['soaperr'][1]) if isinstance(out['soaperr'][1], list)
                                     else out['soaperr'][1], out['soaperr'][2]])
        return super().produce(b, sch2, e2, meth, out)


LEGAL = re.compile('^[\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]*$')


def check(w, v):
    svc = w.svc
    resp = {}
    for r in w.server.responses:
        resp.setdefault(r['i'], []).append(r)
    by = {}
    for x in w.execs:
        by.setdefault(x['delivery'], []).append(x)
    n = odd = 0
    for i, (call, cid, body, how) in enumerate(w.net.delivered):
        o = w.ops[call]
        what = f'call {call} {o["op"]} {how} {o.get("mut") or ""} out={str(o["out"])[:150]} front={w.case["front"]}'
        rs = resp.get(i, [])
        if len(rs) != 1:
            v('not-one-answer', f'{what}: {len(rs)} answers')
            continue
        r = rs[0]
        n += 1
        if 'crash' in r:
            if how == 'cut' and isinstance(r['crash'], ConnectionResetError):
                continue
            import traceback
            v('crashed', f'{what}: {r["crash"]!r} ' + ''.join(traceback.format_tb(r['crash'].__traceback__)[-3:]) + f' request {body[:300]!r}')
            continue
        if how == 'cut' and (r['end'] == 'rst' or w.case['front'] != 'wsgi'):
            continue              # Flask and Django answer a broken connection themselves; nobody is there to read it
        ct = dict((k.lower(), x) for k, x in r['headers']).get('content-type', '')
        if str(ct).split(';')[0].strip() != spec.CT[svc['v']]:
            v('content-type', f'{what}: content type {ct!r} status {r["status"]} body {r["body"][:200]!r} request {body[:200]!r}')
            continue
        extra = {k.lower(): x for k, x in r['headers'] if k.lower().startswith('x-')}
        want = {k.lower(): x for k, x in (o['out'].get('hh') or {}).items() if k.startswith('X-')} if by.get(i) else {}
        if extra != want:
            v('handler-headers', f'{what}: headers {extra}, the handler set {want}')
        for p in r.get('problems') or ():
            v('wsgi-rules', f'{what}: {p}')
        try:
            p = spec.parse_envelope(svc, r['body'])
        except ValueError as e:
            v('answer-unreadable', f'{what}: {e}: {r["body"][:400]!r}; request {body[:300]!r}')
            continue
        if ('fault' in p) != (r['status'] == 500) or r['status'] not in (200, 500):
            v('status', f'{what}: status {r["status"]} for {"fault" if "fault" in p else "result"}')
        if 'fault' in p and 'badprefix' in p['fault']:
            v('fault-code-prefix', f'{what}: {p["fault"]["badprefix"]!r} is not bound to the envelope namespace')
        ex = by.get(i, [])
        if 'fault' not in p:
            if len(ex) != 1 or 'ok' not in o['out']:
                v('result-without-handler', f'{what}: {len(ex)} executions')
        elif len(ex) == 1 and 'ok' in o['out']:
            v('fault-despite-result', f'{what}: {p["fault"]}')
        if 'fault' in p or o.get('mut'):
            odd += 1
    w.liveness(v)
    return n, odd


def run(case, v):
    w = W(case).run()
    n, odd = check(w, v)
    return w.result(nontrivial=bool(n > 1 and odd), key=f'{w.sim.sig}:{case["seed"]}',
                    probes={'answers_judged': n, 'odd_requests': odd, 'executions': len(w.execs)},
                    summary=f'{n} answers; ' + '; '.join(str(o.get('mut') or '-') for o in case['ops'])[:300])
