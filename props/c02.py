"""C02: at-most-once sending, exactly-once execution per delivered request."""
from dst import spec, world

RULE = ('A case is a random service, 1-4 client threads, 1-8 calls (stub or foreign, with or without SOAP action, substitution group '
        'members, unknown actions, elements that are no input, other HTTP methods), network faults weighted towards duplicates and '
        'losses, server crashes, a seeded schedule. Non-trivial: a handler ran and a fault fired or two requests overlapped.')
COMPONENTS = world.components()
QUICK, THOROUGH, QUICK_S, THOROUGH_S = 100000, 10000000, 40, 600
LISTS = ('ops',)
SIMPLER = {'front': 'wsgi', 'pieces': 0, 'framing': 'length', 'segment': 65536, 'crash': None, 'work': False, 'share': False,
           'onestub': False, 'mw': ['fault']}
KINDS = ('dup', 'dup', 'dup', 'refuse', 'unreachable', 'rst_on_send', 'req_lost', 'req_cut', 'req_damage', 'gw', 'delay', 'resp_lost',
         'resp_lost', 'resp_cut', 'resp_damage')


def gen(rng, tier):
    c = world.gen_case(rng, tier, faults=KINDS, p_fault=0.45, p_foreign=0.6, p_noact=0.6, p_crash=0.15,
                       gopts={'methods': rng.randint(2, 5)})
    for o in c['ops']:
        if o['via'] == 'foreign' and rng.random() < 0.2:
            o['bad'] = k = rng.choice(['action', 'action', 'noinput', 'method'])
            if k == 'action':
                o.pop('noact', None)
                o.pop('alt', None)
                act = spec.method_of(c['svc'], o['op'])['action']
                o['action'] = rng.choice(['urn:unknown', act + 'x', act[:-1] or 'q', act.swapcase() + '_', act.swapcase(), act + '/', 'x' + act])
                if any(m['action'] == o['action'] for m in c['svc']['methods']):
                    o['action'] = 'urn:unknown'
            elif k == 'noinput':
                m = spec.method_of(c['svc'], o['op'])
                o['noact'] = 'absent'
                o['alt'] = m['out']
                sch, e = spec.find_elem(c['svc'], m['out'])
                o['arg'] = spec.Gen(rng).value(c['svc'], sch, e['type'], cid=o['arg']['cid'])
            else:
                o['method'] = rng.choice(['PUT', 'DELETE', 'GET'])
    return c


def check(w, v):
    svc = w.svc
    for o in w.case['ops']:
        n = w.net.tx.count(o['id'])
        if n > 1:
            v('sent-more-than-once', f'call {o["id"]} transmitted {n} requests')
    by = {}
    for x in w.execs:
        by.setdefault(x['delivery'], []).append(x)
    crashed = bool(w.case.get('crash'))
    answered = {r['i'] for r in w.server.responses}
    n = 0
    for i, (call, cid, body, how) in enumerate(w.net.delivered):
        o = w.ops[call]
        ex = by.pop(i, [])
        good = how in ('ok', 'dup') and not o.get('bad')
        if not good and how == 'damaged' and not o.get('bad'):
            good = spec.conforms(svc, body)[0]
            if good is None:
                continue
        if not good:
            if ex:
                v('handler-ran-on-bad-request', f'{o.get("bad") or how} request of call {call} ran {[x["op"] for x in ex]}')
            continue
        if len(ex) > 1:
            v('executed-more-than-once', f'delivery {i} of call {call} ran {[x["op"] for x in ex]}')
        elif not ex:
            if i in answered or not crashed:
                v('not-executed', f'delivery {i} of call {call} ({o["op"]}) ran no handler; answered '
                                  f'{next((r["body"][:300] for r in w.server.responses if r["i"] == i), None)}')
        elif ex[0]['op'] != o['op']:
            v('wrong-handler', f'call {call} for {o["op"]} ran {ex[0]["op"]}')
        n += len(ex)
    for k, ex in by.items():
        v('handler-without-request', f'delivery {k}: {ex}')
    w.liveness(v)
    return n


def run(case, v):
    w = world.World(case).run()
    n = check(w, v)
    return w.result(nontrivial=bool(n and (w.net.fired or len(w.net.delivered) > 1)), key=f'{w.sim.sig}:{case["seed"]}',
                    probes={'deliveries': len(w.net.delivered), 'executions': n,
                            'refused_on_purpose': sum(1 for o in case['ops'] if o.get('bad'))},
                    summary=f'{len(w.net.tx)} transmissions, {len(w.net.delivered)} deliveries, {n} executions, faults {w.net.fired}')
