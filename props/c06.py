"""C06: a response depends only on its own request."""
import json
import zlib

from dst import front, mutate, spec, world
from dst.harness import solo
from dst.seams import STATE

RULE = ('A case is a random service shared by 2-5 concurrent clients sending 2-9 requests (valid in many styles, mutated, corrupted, '
        'failing handlers, description requests) to one process under a seeded schedule; afterwards every delivered request is given alone '
        'to a freshly forked process and the answers are compared byte for byte. Non-trivial: at least two requests overlapped and at '
        'least two answers were compared.')
COMPONENTS = world.components()
QUICK, THOROUGH, QUICK_S, THOROUGH_S = 100000, 10000000, 40, 600
LISTS = ('ops',)
SIMPLER = {'front': 'wsgi', 'pieces': 0, 'framing': 'length', 'segment': 65536, 'crash': None, 'work': False, 'share': False}


def gen(rng, tier):
    c = world.gen_case(rng, tier, p_fault=0.1, p_foreign=0.75, p_crash=0, p_soaperr=0.15, p_exc=0.15, max_clients=5, max_ops=9,
                       faults=('dup', 'dup', 'delay', 'req_damage', 'resp_lost'))
    mix(rng, c)
    return c


def mix(rng, c):
    svc = c['svc']
    for o in c['ops']:
        o['client'] = rng.randrange(5)
        if o['via'] == 'foreign':
            m = spec.method_of(svc, o['op'])
            x = rng.random()
            if x < 0.2:
                data, o['mut'] = mutate.message(rng, svc, spec.ref_message(svc, m['in'], o['arg'], spec.Style(rng), o.get('ih')))
                o['raw'] = mutate.b64(data)
            elif x < 0.4:
                data, o['mut'] = mutate.raw(rng, svc, spec.ref_message(svc, m['in'], o['arg'], None, o.get('ih')))
                o['raw'] = mutate.b64(data)
            elif x < 0.5:
                o['get'] = rng.choice(['wsdl', 'xsd'])
        if rng.random() < 0.1:
            o['fault'] = {'kind': 'dup', 'gap': rng.choice([0.0, 0.0005, 0.01]), 'answer': 0}
    world.relate(rng, c, 0.3, mutate)
    if rng.random() < 0.5:
        c['mw'] = rng.choice([['fault'], ['fault', 'logger'], ['fault', 'pass']])
    c['hook'] = rng.random() < 0.3
    for o in c['ops']:
        if 'ok' in o['out'] and rng.random() < 0.1:
            o['out']['hh'] = {f'X-Op-{o["id"]}': 'yes'}


class W(world.World):
    BY_CONN = True

    def extra_dispatch(self):
        if not self.case.get('hook'):
            return {}

        def hook(dispatcher, request, response):
            if getattr(request, 'seen', None):
                response.http_headers['X-Arg'] = str(zlib.crc32(request.seen.encode()))
            if len(request.http_content) % 3:
                response.http_headers[f'X-Seen-{len(request.http_content) % 3}'] = str(len(request.http_content))
            return response

        return {'hooks': {'soap-response': hook, 'wsdl-response': hook, 'xsd-response': hook}}

    def do_foreign(self, o):
        if 'get' not in o:
            return super().do_foreign(o)
        import requests
        loc = self.svc['loc'].replace('${scheme}', 'http').replace('${host}', world.HOST)
        q = '?wsdl' if o['get'] == 'wsdl' else '?xsd=' + next((s['loc'] for s in self.svc['schemas'] if s['loc']), 'none').replace('&', '%26')
        try:
            r = requests.get(loc + q)
            return {'ret': r.status_code}
        except Exception as x:
            self.sim.retrace()
            return {'exc': type(x).__name__, 'msg': str(x)[:200]}


def history(w):
    out = []
    for (call, cid, body, how), i in zip(w.net.delivered, range(len(w.net.delivered))):
        rs = [r for r in w.server.responses if r['i'] == i]
        for r in rs[:1]:
            out.append({'i': i, 'call': call, 'how': how, 'head': mutate.b64(r['head']), 'req': mutate.b64(r['req']),
                        'end': r['end'], 'status': r['status'], 'headers': [list(map(str, h)) for h in r['headers']],
                        'body': mutate.b64(r['body']), 'crash': type(r['crash']).__name__ if 'crash' in r else None,
                        'aborted': r.get('aborted')})
    return out


def record(case, cls=W):
    w = cls(case).run()
    from props.c01 import overlap
    res = w.result(history=history(w), overlap=overlap(w), stuck=w.stuck, overrun=w.sim.overrun)
    return json.loads(json.dumps(res))


class Alone(W):
    """The same service in a fresh process, given one request only."""

    def __init__(self, case, call):
        super().__init__(dict(case, sched={'mode': 'rand', 'seed': 0, 'p': 0.0}, aborts=None, crash=None, ops=case['ops']))
        self.only = call

    def answer(self, head, body):
        import base64
        head, body = base64.b64decode(head), base64.b64decode(body)
        self.prepare()
        res = {}

        class C:
            cid = 0
            call = self.only

        def go():
            t = self.sim.current()
            t.data.update(conn=C, delivery=0)
            inp = front.SimInput(self.sim, body, None, self.case.get('pieces', 0), len(body))
            head2 = head
            try:
                env = front.make_environ(head2, inp, 'http', world.HOST)
                env['dst.delivery'], env['dst.call'] = 0, self.only
                st, h, b, _ = front.run_wsgi(self.server.app, env)
                res.update(status=int(st[:3]), headers=[list(map(str, x)) for x in h], body=mutate.b64(b), crash=None)
            except Exception as x:
                self.sim.retrace()
                res.update(status=500, headers=[], body='', crash=type(x).__name__)

        self.sim.spawn('alone', go, host=world.HOST)
        STATE.net = self.net
        self.stubs = {}
        stuck = self.sim.run()
        if self.herr:
            raise self.herr[0]
        if stuck:
            res['stuck'] = stuck
        return res


def compare(case, hist, v, cls=Alone, skip=lambda h: False):
    import base64
    import re
    n = 0
    cache = {}
    for h in hist:
        if h['end'] or skip(h):
            continue
        head = base64.b64decode(h['head'])
        body = base64.b64decode(h['req'])
        head = re.sub(rb'(?i)(\r\ncontent-length:\s*)\d+', lambda m: m.group(1) + b'%d' % len(body), head)
        k = (h['call'], h['head'], h['req'])
        if k not in cache:
            cache[k] = solo(lambda: cls(case, h['call']).answer(mutate.b64(head), h['req']))
        b = cache[k]
        n += 1
        for f in ('status', 'crash', 'body', 'headers'):
            if h[f] != b.get(f):
                x, y = h[f], b.get(f)
                if f == 'body':
                    x, y = base64.b64decode(x), base64.b64decode(y)
                v('differs-from-fresh-' + f, f'delivery {h["i"]} of call {h["call"]}: {str(x)[:600]} but a fresh process gives {str(y)[:600]}; '
                                             f'request {body[:500]!r}')
                break
    return n


def run(case, v):
    res = solo(lambda: record(case))
    hist = res.pop('history')
    if res['stuck']:
        v('stuck', res['stuck'])
    if res['overrun']:
        v('no-progress', 'step budget exceeded')
    n = compare(case, hist, v)
    res.update(nontrivial=bool(n > 1 and res['overlap']), key=f'{res["sig"]}:{case["seed"]}', probes={'answers_compared': n, 'overlapping_runs': int(res['overlap'])},
               summary=f'{n} answers compared with fresh processes; ' + '; '.join(str(o.get('mut') or o.get('get') or '-') for o in case['ops'])[:200])
    return res
