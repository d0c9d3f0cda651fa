"""C05: a handler's fault reaches the right caller with its code and message."""
from dst import spec, world

RULE = ('A case is a random service whose handlers and middlewares fail most calls with distinct SOAP errors (raised or returned) or '
        'other exceptions, 1-5 client threads sharing one stub or not, few network faults, a seeded schedule. Non-trivial: a '
        'fault was compared with its script while another call was in progress.')
COMPONENTS = world.components()
QUICK, THOROUGH, QUICK_S, THOROUGH_S = 100000, 10000000, 40, 600
LISTS = ('ops',)
SIMPLER = {'front': 'wsgi', 'pieces': 0, 'framing': 'length', 'segment': 65536, 'crash': None, 'work': False, 'share': False,
           'onestub': False}
ASSUMPTIONS = ['Messages are XML characters; code points XML cannot carry are the subject of C04.']


def gen(rng, tier):
    c = world.gen_case(rng, tier, max_clients=5, p_fault=0.15, p_foreign=0.25, p_crash=0, p_soaperr=0.45, p_exc=0.25,
                       faults=('dup', 'delay', 'delay', 'resp_lost', 'gw', 'req_lost'))
    c['mw'] = rng.choice([['fault'], ['fault', 'script'], ['script', 'fault'], ['fault', 'logger', 'script'], ['logger', 'fault', 'script']])
    if rng.random() < 0.4:       # everybody fails at once, each in a way of its own
        kind = rng.choice(['exc', 'soaperr'])
        for o in c['ops']:
            o.pop('fault', None)
            msg = rng.choice(world.MSGS) + f' #{o["id"]}'
            o['out'] = {'exc': [rng.choice(sorted(world.EXCS)), msg]} if kind == 'exc' else {'soaperr': [rng.choice('CS'), msg, None]}
    if rng.random() < 0.4:       # the same few words again and again, under different codes and from different exceptions
        pool = rng.sample(world.MSGS, rng.choice([1, 1, 2]))
        for o in c['ops']:
            out = o['out']
            if 'soaperr' in out:
                out['soaperr'][1] = rng.choice(pool)
            elif 'exc' in out:
                out['exc'][1] = rng.choice(pool)
    for o in c['ops']:
        out = o['out']
        if 'soaperr' in out:
            out['mode'] = rng.choice(['raise', 'raise', 'return', 'wrap'])
            if 'script' in c['mw'] and rng.random() < 0.4:
                out['mode'] = rng.choice(['mwraise', 'mwreturn', 'mwlate'])
            if c['svc']['v'] == 11 and rng.random() < 0.15:
                out['soaperr'][0] = rng.choice(['Client.Auth', 'Server.Db.Locked'])
        elif 'exc' in out and rng.random() < 0.15:
            out['args'] = rng.choice(world.EXC_ARGS)
        if 'exc' in out and 'script' in c['mw'] and c['mw'][-1] == 'script' and rng.random() < 0.3:
            out['mode'] = 'mwraise'
    return c


class W(world.World):
    def op_now(self):
        t = self.sim.current()
        return self.ops[t.data['conn'].call]

    def err(self, out):
        from soapfish import core
        if 'exc' in out:
            return world.make_exc(out)
        c, msg, actor = out['soaperr']
        return core.SOAPError(world.code_value(self.svc, c) if '.' not in c else c, msg, actor)

    def middlewares(self):
        from soapfish import middlewares as mws

        def script(request, next_call):
            out = self.op_now()['out']
            mode = out.get('mode')
            if mode == 'mwraise':
                raise self.err(out)
            if mode == 'mwreturn':
                return self.err(out)
            r = next_call(request)
            if mode == 'mwlate':
                raise self.err(out)
            return r

        d = {'fault': mws.ExceptionToSoapFault, 'logger': mws.ExceptionLogger}
        return [d[n]() if n in d else script for n in self.case['mw']]

    def produce(self, b, sch2, e2, meth, out):
        from soapfish import core
        if 'soaperr' in out:
            mode = out.get('mode', 'raise')
            if mode == 'return':
                return self.err(out)
            if mode == 'wrap':
                return core.SOAPResponse(self.err(out))
            if mode.startswith('mw'):
                m = next(m for m in self.svc['methods'] if m['op'] == meth.operationName)
                return spec.to_obj(b, sch2, e2['type'], spec.Gen(__import__('random').Random(7)).value(self.svc, sch2, e2['type'], cid='z')) if m else None
            raise self.err(out)
        return super().produce(b, sch2, e2, meth, out)


def code_text(svc, c):
    if '.' in c:
        return c
    x = world.code_value(svc, c)
    return str(getattr(x, 'value', x))


def excmsg(out):
    # OSError(2, ...) is of another class than it was made of
    e = world.make_exc(out)
    return f'{type(e).__name__}: {e}'


LOST = ('resp_lost', 'gw', 'req_lost')


def check(w, v):
    svc = w.svc
    n = 0
    for o in w.case['ops']:
        out = w.outcomes.get(o['id'])
        if out is None or (o.get('fault') or {}).get('kind') in LOST:
            continue
        s = o['out']
        what = f'call {o["id"]} {o["op"]} ({o["via"]})'
        if 'ok' in s:
            if 'err' in out or 'exc' in out:
                v('success-became-fault', f'{what}: {out}')
            continue
        n += 1
        if 'err' not in out:
            v('fault-not-raised', f'{what}: handler failed with {s}, caller saw {out}')
            continue
        if 'soaperr' in s:
            want = [code_text(svc, s['soaperr'][0]), s['soaperr'][1]]
        else:
            want = [code_text(svc, 'S'), excmsg(s)]
        if out['err'][:2] != want:
            v('other-fault', f'{what}: handler failed with {want}, caller saw {out["err"]}')
        if o['via'] == 'foreign' and out.get('status') != 500:
            v('fault-status', f'{what}: status {out.get("status")}')
    w.liveness(v)
    return n


def run(case, v):
    w = W(case).run()
    n = check(w, v)
    from props.c01 import overlap
    return w.result(nontrivial=bool(n and overlap(w)), key=f'{w.sim.sig}:{case["seed"]}',
                    probes={'faults_compared': n, 'overlapping_runs': int(overlap(w))},
                    summary=f'{len(case["ops"])} calls, {n} faults compared')
