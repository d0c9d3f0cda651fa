"""C03: no handler runs on a nonconforming request; conforming ones are served."""
from dst import mutate, spec, world

RULE = ('A case is a random service and 1-8 requests from 1-4 concurrent clients: conforming ones in many styles and ones with 1-3 '
        'structural mutations in body or header, plus truncation and damage on the wire. The verdict comes from XML Schema documents '
        'written by the harness from the service definition. Non-trivial: at least one request was judged nonconforming and one '
        'conforming request was served in the same run.')
COMPONENTS = world.components()
QUICK, THOROUGH, QUICK_S, THOROUGH_S = 100000, 10000000, 40, 600
LISTS = ('ops',)
SIMPLER = {'front': 'wsgi', 'pieces': 0, 'framing': 'length', 'segment': 65536, 'crash': None, 'work': False, 'share': False}
ASSUMPTIONS = ['libxml2 validates correctly against the reference schema; only the first element of a Body is a message.']


def gen(rng, tier):
    c = world.gen_case(rng, tier, p_fault=0.2, p_foreign=1.0, p_crash=0, p_soaperr=0, p_exc=0,
                       faults=('req_cut', 'req_damage', 'req_damage', 'delay', 'dup'))
    c['strict'] = rng.random() < 0.85
    svc = c['svc']
    for o in c['ops']:
        if rng.random() < 0.6:
            m = spec.method_of(svc, o['op'])
            st = spec.Style(rng)
            data = spec.ref_message(svc, o.get('alt') or m['in'], o['arg'], st, o.get('ih'))
            data, labels = mutate.message(rng, svc, data)
            o['raw'] = mutate.b64(data)
            o['mut'] = labels
    world.relate(rng, c, 0.3, mutate)
    return c


def check(w, v, val=None):
    svc = w.svc
    val = val or spec.ref_validator(svc)
    by = {}
    for x in w.execs:
        by.setdefault(x['delivery'], []).append(x)
    bad = good = 0
    resp = {r['i']: r for r in w.server.responses}
    for i, (call, cid, body, how) in enumerate(w.net.delivered):
        o = w.ops[call]
        if o['via'] == 'describe':
            continue
        ex = by.get(i, [])
        r = resp.get(i)
        ok, why = spec.conforms(svc, body, val)
        if ok is None:
            if r is not None and b'>Server<' in r.get('body', b''):
                v('not-a-client-fault', f'call {call} {o["op"]}: {r["body"][:300]!r}; body {body[:700]!r}')
            continue
        hdr_bad = False
        if not ok and w.case.get('strict') is False and any(x.startswith('header') for x in o.get('mut') or ()):
            continue          # the lenient mode only promises anything about the body
        if how == 'cut' and ok:
            continue
        what = f'call {call} {o["op"]} {how} {o.get("mut") or ""}'
        if not ok:
            bad += 1
            if ex:
                v('handler-ran-on-nonconforming', f'{what}: {why}; body {body[:700]!r}')
            elif how == 'cut' and r is not None and (r['end'] == 'rst' or w.case['front'] != 'wsgi'):
                pass          # Flask and Django answer a broken connection themselves; nobody is there to read it
            elif r is not None and 'crash' not in r:
                try:
                    p = spec.parse_envelope(svc, r['body'])
                except ValueError as e:
                    v('refusal-unreadable', f'{what}: {e}: {r["body"][:300]!r}')
                    continue
                if 'fault' not in p:
                    v('nonconforming-answered', f'{what}: {r["body"][:300]!r}')
                elif p['fault']['code'].rsplit(':', 1)[-1] not in ('Client', 'Sender'):
                    v('not-a-client-fault', f'{what}: {p["fault"]} for {why}; body {body[:700]!r}')
            elif r is not None and how != 'cut':
                v('refusal-crashed', f'{what}: {r["crash"]!r}')
        else:
            # conforming: the element must be an input of the operation it was sent to
            m = spec.method_of(svc, o['op'])
            if p_elem(why) not in (m['in'], o.get('alt')):
                continue
            good += 1
            if len(ex) != 1:
                v('conforming-refused', f'{what}: {r and r.get("body", b"")[:400]!r}; request {body[:700]!r}')
    for o in w.case['ops']:
        if 'raw' in o or o['via'] == 'describe' or (o.get('fault') or {}).get('kind') not in (None, 'dup'):
            continue
        out = w.outcomes.get(o['id']) or {}
        if 'ret' not in out:
            v('conforming-refused', f'call {o["id"]} {o["op"]}: {out}')
    w.liveness(v)
    return bad, good


def p_elem(p):
    return p.get('elem')


class W(world.World):
    BY_CONN = True


def run(case, v):
    w = W(case).run()
    bad, good = check(w, v)
    return w.result(nontrivial=bool(bad and good), key=f'{w.sim.sig}:{case["seed"]}',
                    probes={'judged_nonconforming': bad, 'judged_conforming': good, 'executions': len(w.execs)},
                    summary=f'{bad} nonconforming, {good} conforming: ' + '; '.join(' '.join(o.get('mut') or ['-']) for o in case['ops'])[:300])
