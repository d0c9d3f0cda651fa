"""C07: a request aborted at any point leaves no trace."""
import base64
import json

from dst import front, mutate, spec, world
from dst.harness import solo
from dst.sched import Sim
from dst.seams import CLK, STATE
from props import c06

RULE = ('A case is a random service and 3-9 requests; the processing of 1-3 of them is aborted by an asynchronous exception (worker '
        'timeout, KeyboardInterrupt, MemoryError, SystemExit) raised at a seeded line of the library, sequentially or among concurrent '
        'requests; every request that was not aborted must be answered byte for byte as by a freshly forked process. Two thirds of the '
        'cases are sweeps: one request aborted at 40 seeded points, each in a process of its own, followed by up to three others. '
        'Non-trivial: an abort fired inside the library and a later answer was compared.')
COMPONENTS = world.components()
QUICK, THOROUGH, QUICK_S, THOROUGH_S = 100000, 10000000, 60, 600
LISTS = ('points', 'ops')
SIMPLER = {'front': 'wsgi', 'pieces': 0, 'framing': 'length', 'segment': 65536, 'crash': None, 'work': False, 'share': False}
ASSUMPTIONS = ['Aborts strike at line boundaries of library code (not inside native code, which no Python exception can interrupt), '
               'and not while a module is being imported.']


def gen(rng, tier):
    if rng.random() < 0.65:
        return gen_sweep(rng, tier)
    c = world.gen_case(rng, tier, p_fault=0.0, p_foreign=0.9, p_crash=0, p_soaperr=0.1, p_exc=0.1, max_clients=3, max_ops=9,
                       fronts=('wsgi',) * 8 + ('flask', 'django'))
    c06.mix(rng, c)
    seq = rng.random() < 0.6
    base = rng.choice([0, 0, 1])
    lo = []
    for o in c['ops']:
        o.pop('fault', None)
        if seq:
            o['client'] = 0
    # repeat some requests after the aborted one
    n = len(c['ops'])
    for k in range(rng.randint(1, 3)):
        src = rng.choice(c['ops'][:n])
        o = dict(src, id=n + k)
        o['repeat'] = src['id']
        lo.append(o)
    c['ops'] += lo
    top = rng.choice([60, 400, 2500]) if c['front'] == 'wsgi' else rng.choice([400, 60000])
    c['aborts'] = {str(i): [rng.randint(1, top), rng.choice(['WorkerTimeout', 'KeyboardInterrupt', 'MemoryError', 'SystemExit'])]
                   for i in sorted(set([base] + [rng.randrange(len(c['ops'])) for _ in range(rng.randint(0, 2))]))}
    if seq:
        c['sched'] = dict(c['sched'], p=0.0)
        c['sched'].pop('hot', None)
    return c


def gen_sweep(rng, tier):
    c = world.gen_case(rng, tier, p_fault=0.0, p_foreign=1.0, p_crash=0, p_soaperr=0.1, p_exc=0.1, max_ops=4, fronts=('wsgi',))
    c06.mix(rng, c)
    for o in c['ops']:
        o['via'] = 'foreign'
        o.pop('fault', None)
        o['client'] = 0
    ms = list(c['svc']['methods'])
    rng.shuffle(ms)
    g = spec.Gen(rng)
    for o, m in zip(c['ops'][1:], ms):      # the others go to different methods
        if o['op'] != m['op'] and not set(o) & {'raw', 'get', 'alt'}:
            sch, e = spec.find_elem(c['svc'], m['in'])
            o.update(op=m['op'], arg=g.value(c['svc'], sch, e['type'], cid=o['arg']['cid']), out=world.gen_out(rng, g, c['svc'], m, o['arg']['cid'], 0.1, 0.1))
            o.pop('ih', None)
    if rng.random() < 0.6:
        first = c['ops'][0]
        for k in ('raw', 'mut', 'get'):
            first.pop(k, None)
    c['sched'] = {'mode': 'rand', 'seed': 0, 'p': 0.0}
    c['kind'] = 'sweep'
    # half of the points fall on any line of code with the same chance, at its first, second, last or any occurrence; a quarter
    # where code runs for the first time in the process, the rest anywhere
    c['points'] = [[rng.random(), rng.choice(['WorkerTimeout', 'KeyboardInterrupt', 'MemoryError', 'SystemExit']),
                    rng.choice(['any', 'new', 'line', 'line']), rng.choice([0.0, 0.0, 'second', 'second', 1.0, rng.random()])] for _ in range(40)]
    return c


class Sweep(c06.Alone):
    def serve(self, o, abort=None, trace=False):
        """Give one request to the running process; returns (answer, positions, aborted where)."""
        import requests
        self.sim = sim = Sim({'mode': 'rand', 'seed': 0, 'p': 0.0})
        sim.firsts = self.firsts
        loc = self.svc['loc'].replace('${scheme}', 'http').replace('${host}', world.HOST)
        if 'get' in o:
            q = '?wsdl' if o['get'] == 'wsdl' else '?xsd=' + next((s['loc'] for s in self.svc['schemas'] if s['loc']), 'none').replace('&', '%26')
            p = requests.Request('GET', loc + q).prepare()
        else:
            h, body = self.request_bytes(o)
            p = requests.Request('POST', loc, data=body, headers=h).prepare()
        body = p.body or b''
        head = (f'{p.method} {p.path_url} HTTP/1.1\r\nHost: {world.HOST}\r\n' + '\r\n'.join(f'{k}: {x}' for k, x in p.headers.items())).encode('latin-1')
        res = {}

        class C:
            cid = 0
            call = o['id']

        def go():
            t = sim.current()
            t.data.update(conn=C, delivery=0)
            env = front.make_environ(head, front.SimInput(sim, body, None, self.case.get('pieces', 0), len(body)), 'http', world.HOST)
            env['dst.delivery'], env['dst.call'] = 0, o['id']
            try:
                st, hd, b, _ = front.run_wsgi(self.server.app, env)
                res.update(status=int(st[:3]), headers=[list(map(str, x)) for x in hd], body=mutate.b64(b), crash=None)
            except Exception as x:
                sim.retrace()
                res.update(status=500, headers=[], body='', crash=type(x).__name__)

        t = sim.spawn('alone', go, host=world.HOST, abort=abort, trace=trace or bool(abort))
        STATE.net = self.net
        stuck = sim.run()
        STATE.net = None
        if stuck:
            res['stuck'] = stuck
        return res, t, sim


def sweep(case, v):
    ops = case['ops']
    w = Sweep(case, ops[0]['id'])
    w.firsts = set()
    w.prepare()
    w.stubs = {}

    def alone(o):
        res, t, sim = w.serve(o, trace=o is ops[0])
        if w.herr:
            raise w.herr[0]
        return {'res': res, 'n': t.n, 'new': sim.newpos, 'occ': sorted(sim.occ.values())}

    base = {o['id']: solo(lambda: alone(o)) for o in ops}
    n0, new, occ = (base[ops[0]['id']][k] for k in ('n', 'new', 'occ'))

    def one(pt):
        if pt[2] == 'line' and occ:
            o = occ[int(pt[0] * len(occ))]
            pos = o[min(1, len(o) - 1)] if pt[3] == 'second' else o[min(int(pt[3] * len(o)), len(o) - 1)]
        else:
            pos = new[int(pt[0] * len(new))] if pt[2] == 'new' and new else 1 + int(pt[0] * n0)
        _, t, _ = w.serve(ops[0], (pos, pt[1]))
        out = {'where': t.aborted, 'pos': pos, 'bad': None, 'n': 0, 'steps': t.n}
        for o in ops[1:] + ops[:1]:
            res, _, sim = w.serve(o)
            out['steps'] += sim.steps
            out['n'] += 1
            want = base[o['id']]['res']
            if res != want:
                out['bad'] = [o['id'], res, want]
                break
        return out

    n = fired = steps = 0
    where = {}
    sig = 0
    for pt in case['points']:
        r = solo(lambda: one(pt))
        n += r['n']
        steps += r['steps']
        if r['where']:
            fired += 1
            k = 'abort_in_' + r['where'].split(':')[0].replace('.py', '')
            where[k] = where.get(k, 0) + 1
        sig = __import__('zlib').crc32(f'{r["pos"]}{pt[1]}{r["where"]}'.encode(), sig)
        if r['bad']:
            i, got, want = r['bad']
            f = lambda a: {k: (base64.b64decode(x)[:500] if k == 'body' else x) for k, x in a.items()}
            v('trace-left', f'{pt[1]} at {r["where"]} (line event {r["pos"]} of {n0}) of request {ops[0]["id"]}; then request {i} gives {f(got)} '
                            f'but a process without the aborted request gives {f(want)}')
            break
    return {'sig': sig, 'simt': CLK.t, 'steps': steps, 'npre': 0, 'faults': {'abort': fired}, 'record': [], 'log': [], 'nontrivial': fired > 0 and n > 0,
            'key': f'{sig}:{case["seed"]}', 'probes': dict(where, answers_compared=n, aborted_requests=fired, later_answers=n),
            'summary': f'{fired} aborts over {n0} line events of one request, {n} later answers compared'}


class W(c06.W):
    """Calls that are repeats share the script of the original."""


def reductions(case):
    ab = case.get('aborts') or {}
    for k in list(ab):
        yield dict(case, aborts={a: b for a, b in ab.items() if a != k})
    for k in list(ab):
        if ab[k][1] != 'KeyboardInterrupt':
            yield dict(case, aborts=dict(ab, **{k: [ab[k][0], 'KeyboardInterrupt']}))


def record(case):
    w = W(case)
    w.run()
    ab = {}
    for t in w.sim.tasks:
        if t.aborted and 'delivery' in t.data:
            ab[t.data['delivery']] = t.aborted
    h = c06.history(w)
    for x in h:
        x['aborted'] = ab.get(x['i'])
    from props.c01 import overlap
    return w.result(history=h, overlap=overlap(w), stuck=w.stuck, overrun=w.sim.overrun, where=sorted(ab.values()),
                    first=min(ab) if ab else None)


def run(case, v):
    if case.get('kind') == 'sweep':
        return sweep(case, v)
    res = solo(lambda: record(case))
    hist = res.pop('history')
    if res['stuck']:
        v('stuck', f'{res["stuck"]} after aborts at {res["where"]}')
    if res['overrun']:
        v('no-progress', 'step budget exceeded')
    n0 = len(v.items)
    n = c06.compare(case, hist, v, skip=lambda h: h['aborted'])
    for x in v.items[n0:]:
        x['detail'] = f'after aborts in {res["where"]}: ' + x['detail']
    later = sum(1 for h in hist if not h['aborted'] and res['first'] is not None and h['i'] > res['first'])
    res.update(nontrivial=bool(res['where'] and later), key=f'{res["sig"]}:{case["seed"]}',
               probes={'answers_compared': n, 'aborted_requests': len(res['where']), 'later_answers': later,
                       **{'abort_in_' + w.split(':')[0].replace('.py', ''): res['where'].count(w) for w in set(res['where'])}},
               summary=f'aborted in {res["where"]}, {n} answers compared')
    return res
