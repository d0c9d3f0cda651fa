"""C09: WS-Addressing identifiers are unique and correlate replies."""
import random
import re

from dst import front, seams, spec, world
from dst.harness import solo
from dst.net import Net
from dst.sched import Sim
from dst.seams import CLK, STATE

RULE = ('A case is 1-4 simulated processes (servers started on their own or forked from a master that has filled headers before, on '
        'shared or different hosts, with equal pids, equal start times, frozen, jumping and skewed clocks), each serving threads of '
        'stub and foreign clients over a network that delays and duplicates. Every addressing header anybody fills is recorded; '
        'replies are compared with the request on the wire; malformed addressing headers are mixed in. Non-trivial: at least two '
        'processes or threads filled headers and at least one reply was correlated.')
COMPONENTS = dict(world.components(), stub=world.components()['stub'] + ['libuuid (an ideal generator: never repeats on a node)', 'getpid'])
QUICK, THOROUGH, QUICK_S, THOROUGH_S = 100000, 10000000, 40, 600
LISTS = ('procs',)
SIMPLER = {'front': 'wsgi', 'bulk': 1}
ASSUMPTIONS = ['libuuid\'s uuid_generate_time_safe and the kernel\'s entropy never repeat themselves.']
WSA = 'http://www.w3.org/2005/08/addressing'
NS = 'urn:dst:wsa'

GOOD = ('', '<{p}:From><{p}:Address>http://a/</{p}:Address></{p}:From>',
        '<{p}:FaultTo><{p}:Address>urn:f</{p}:Address><{p}:ReferenceParameters><x xmlns="urn:q"/></{p}:ReferenceParameters></{p}:FaultTo>',
        '<{p}:ReplyTo><{p}:Address>http://www.w3.org/2005/08/addressing/anonymous</{p}:Address></{p}:ReplyTo>',
        '<{p}:ReplyTo s="" xmlns:q="urn:q" q:a="1"><!-- c --><{p}:Address>http://r/?a=b&amp;c</{p}:Address><{p}:Metadata/></{p}:ReplyTo>'.replace(' s=""', ''),
        '<{p}:RetryAfter>30</{p}:RetryAfter>', '<{p}:RelatesTo>urn:uuid:earlier</{p}:RelatesTo>',
        '<{p}:RelatesTo RelationshipType="urn:follows">urn:uuid:earlier</{p}:RelatesTo>')
BAD = {'unknown': '<{p}:Foo>x</{p}:Foo>', 'unknown2': '<{p}:messageID>x</{p}:messageID>', 'id-child': '<{p}:MessageID><b/></{p}:MessageID>',
       'action-child': '<{p}:Action>x<{p}:To/></{p}:Action>', 'no-address': '<{p}:ReplyTo/>', 'no-address2': '<{p}:From><{p}:Metadata/></{p}:From>',
       'two-addresses': '<{p}:ReplyTo><{p}:Address>a</{p}:Address><{p}:Address>b</{p}:Address></{p}:ReplyTo>',
       'epr-unknown': '<{p}:FaultTo><{p}:Address>a</{p}:Address><{p}:Nope/></{p}:FaultTo>', 'attr': '<{p}:To mustUnderstand="1">u</{p}:To>',
       'attr2': '<{p}:RelatesTo Type="x">u</{p}:RelatesTo>', 'retry': '<{p}:RetryAfter>soon</{p}:RetryAfter>',
       'retry2': '<{p}:RetryAfter>-1</{p}:RetryAfter>', 'epr-text': '<{p}:ReplyTo>http://a/<{p}:Address>a</{p}:Address></{p}:ReplyTo>',
       'epr-foreign': '<{p}:ReplyTo><x xmlns="urn:q"/><{p}:Address>a</{p}:Address></{p}:ReplyTo>', 'local': '<{p}:Address>a</{p}:Address>',
       'wsa-attr': '<{p}:To {p}:x="1">a</{p}:To>', 'address-plain': '<{p}:ReplyTo><Address>a</Address></{p}:ReplyTo>',
       'problem': '<{p}:ProblemAction><{p}:Reason/></{p}:ProblemAction>', 'header-type': '<{p}:Header/>'}


def gen(rng, tier):
    nh = rng.choice([1, 1, 2, 3])
    nodes = [rng.getrandbits(47) << 1 for _ in range(nh)]
    if rng.random() < 0.3:
        nodes = [nodes[0]] * nh          # cloned machines share a hardware address only on different "hosts" of one node: same libuuid state
    base = rng.choice([0.0, 1.7e9, 1.7e9 + rng.random(), 4.0e9])
    procs = []
    for i in range(rng.choice([1, 2, 2, 3, 4])):
        ops = []
        n = rng.randint(1, 5)
        for k in range(n):
            ops.append(gen_op(rng, f'p{i}o{k}'))
        procs.append({'node': rng.choice(nodes), 'pid': rng.choice([1, 1, 7, 4242, 31000 + i]), 'start': base + rng.choice([0.0, 0.0, 0.0, -5.0, 3600.0, 1e-6]),
                      'master': rng.choice([None, None, None, 0, 0, 1]), 'clock': gen_clock(rng), 'ops': ops, 'sched': world.gen_sched(rng),
                      'seed': rng.randrange(1 << 30)})
    return {'seed': rng.randrange(1 << 30), 'procs': procs, 'v': rng.choice([11, 12]), 'hdr': rng.choice(['service', 'method', 'app', 'app']),
            'strict': rng.random() < 0.7, 'front': rng.choice(['wsgi'] * 9 + ['flask', 'django']), 'bulk': rng.choice([0, 1, 1, 60, 400]),
            'prefill': rng.choice([0, 0, 1, 5]), 'reply': rng.choice(['new', 'new', 'reuse', 'twice', 'copy', 'stale']),
            'qual': rng.random() < 0.5, 'sched': {'mode': 'rand', 'seed': 0, 'p': 0.0}}


def gen_clock(rng):
    x = rng.random()
    if x < 0.35:
        return {'frozen': True}
    if x < 0.7:
        return {'jumps': [[round(rng.random() * 0.02, 5), rng.choice([-3600.0, -1.0, -0.001, 5.0, -1e6])] for _ in range(rng.randint(1, 3))]}
    return {}


def gen_op(rng, cid):
    o = {'cid': cid, 'client': rng.randrange(3), 'op': rng.choice(['Get', 'Put']), 'via': rng.choice(['stub', 'stub', 'foreign', 'foreign', 'bad']),
         'action': rng.choice(['urn:a', 'http://ex/act', 'x', 'urn:ünï', 'http://ex/a?b=c&d']) + rng.choice(['', 'Response', 'Request', '/', ':' + cid])}
    if rng.random() < 0.2:
        o['fault'] = rng.choice([{'kind': 'dup', 'gap': 0.0, 'answer': 1}, {'kind': 'dup', 'gap': 0.003, 'answer': 0}, {'kind': 'resp_lost', 'end': 'rst'},
                                 {'delay': 0.01}])
    if o['via'] != 'stub':
        o['mid'] = rng.choice([f'urn:uuid:{cid}', f'mailto:{cid}@x', 'same-for-all', 'x' * 300 + cid, f'日本-{cid}', f'a&b<{cid}>', None, '0'])
        o['p'] = rng.choice(['wsa', 'a', 'ns0', 'b1'])
        o['extra'] = [rng.choice(GOOD) for _ in range(rng.randint(0, 2))]
        o['salt'] = rng.randrange(1 << 30)
    else:
        o['reuse'] = rng.random() < 0.4
        o['replyto'] = rng.random() < 0.4
        o['rel'] = rng.random() < 0.3
    if o['via'] == 'bad':
        o['bad'] = rng.choice(sorted(BAD))
    if rng.random() < 0.15:
        o['fail'] = rng.choice([True, 'header', 'header'])
    return o


# ------------------------------------------------------------------ one simulated process
class Proc:
    def __init__(self, case, p):
        self.case, self.p = case, p
        self.ids, self.viol, self.pairs, self.execs = [], [], 0, []
        self.sim = Sim(p['sched'], max_steps=1_000_000)
        self.ops = {i: o for i, o in enumerate(p['ops'])}
        self.bycid = {o['cid']: (i, o) for i, o in self.ops.items()}
        self.net = Net(self.sim, lambda call, att, host: None if att else self.ops[call].get('fault'))
        self.kept = {}
        self.free = []

    def bad(self, kind, text):
        self.viol.append([kind, text])

    def fill(self, dst, src=None, who=''):
        from soapfish import wsa
        wsa.fill_header(dst, src) if src is not None else wsa.fill_header(dst)
        m = dst.MessageID
        self.ids.append(m)
        if not isinstance(m, str) or not m:
            self.bad('no-identifier', f'{who}: fill_header left MessageID {m!r}')
        return dst

    def classes(self):
        from soapfish import soap, wsa, xsd
        q = xsd.ElementFormDefault.QUALIFIED if self.case['qual'] else xsd.ElementFormDefault.UNQUALIFIED

        class Req(xsd.ComplexType):
            cid = xsd.Element(xsd.String)

        class Rsp(xsd.ComplexType):
            cid = xsd.Element(xsd.String)

        sc = xsd.Schema(NS, elementFormDefault=q, complexTypes=[Req, Rsp],
                        elements={'req': xsd.Element(Req), 'req2': xsd.Element(Req), 'rsp': xsd.Element(Rsp), 'identity': xsd.Element(xsd.String)})
        kind = self.case['hdr']
        H = wsa.Header
        if kind == 'app':
            class H(wsa.Header):
                SCHEMA = sc
                identity = sc.get_element_by_name('identity')
        ih = oh = None if kind == 'service' else H
        ms = [xsd.Method(function=self.handler, soapAction='urn:get', input='req', inputPartName='b', output='rsp', outputPartName='b', operationName='Get',
                         input_header=ih, output_header=oh),
              xsd.Method(function=self.handler, soapAction='urn:put', input='req2', inputPartName='b', output='rsp', outputPartName='b', operationName='Put',
                         input_header=ih, output_header=oh)]
        v = soap.SOAPVersion.SOAP11 if self.case['v'] == 11 else soap.SOAPVersion.SOAP12
        svc = soap.Service(name='S', targetNamespace='urn:svc', location='http://${host}/ws', schemas=[sc], methods=ms, version=v, use_wsa=kind == 'service')
        return svc, H, Req, Rsp

    def handler(self, request, inp):
        from soapfish import core
        h = request.soap_header
        t = self.sim.current()
        call = t.data['conn'].call
        self.execs.append({'cid': inp.cid, 'call': call, 'act': getattr(h, 'Action', None), 'mid': getattr(h, 'MessageID', None),
                           'to': getattr(h, 'To', None)})
        self.sim.point('handler')
        o = self.ops[call]
        told = core.SOAPError(self.svc.version.Code.SERVER, 'told to')
        if o.get('fail') is True:
            raise told
        mode = self.case['reply']
        if mode == 'reuse':
            # an object that answered an earlier request serves again
            out = next((x for x in self.free if x[0].state == 'done'), None) or [t, self.H()]
            if out in self.free:
                self.free.remove(out)
            self.free.append([t, out[1]])
            out = out[1]
        elif mode == 'stale':
            out = self.H(Action='stale', MessageID='stale', To='stale', RelatesTo='stale')
        else:
            out = self.H()
        if mode == 'twice':
            self.fill(out, h, 'handler')
            self.sim.point('again')
        self.fill(out, h, 'handler')
        if mode == 'copy':
            out2 = self.H()
            out2.Action, out2.RelatesTo, out2.MessageID, out2.To = out.Action, out.RelatesTo, out.MessageID, out.To
            out = out2
        return core.SOAPResponse(told if o.get('fail') else self.Rsp(cid=inp.cid), soap_header=out)

    # ---- clients
    def client(self, todo):
        for i, o in todo:
            t = self.sim.current()
            t.call, t.attempt = i, 0
            self.sim.ev('call', i)
            (self.stub if o['via'] == 'stub' else self.foreign)(i, o)
            t.call = None

    def stub(self, i, o):
        from soapfish import core, soap
        t = self.sim.current()
        S = type('S', (soap.Stub,), {'SERVICE': self.svc, 'HOST': world.HOST})
        h = self.kept.setdefault(('cl', t.tid), self.H()) if o['reuse'] else self.H()
        h.Action = o['action']
        if o['replyto']:
            from soapfish import wsa
            h.ReplyTo = wsa.ReplyTo(Address=wsa.ANONYMOUS)
        if o.get('rel'):         # a request may itself be an answer
            h.RelatesTo = 'urn:uuid:earlier'
        if self.case['hdr'] == 'app':
            h.identity = o['cid']
        self.fill(h, None, 'client')
        mid = o['sent'] = h.MessageID
        o['sentto'] = h.To
        try:
            r = S().call(o['op'], self.Req(cid=o['cid']), header=h)
        except core.SOAPError as e:
            self.sim.retrace()
            if not o.get('fail'):
                self.bad('conforming-refused', f'{o["cid"]}: header {h.xml("h")!r} refused: {e.message}')
            return
        except Exception as e:
            self.sim.retrace()
            if not o.get('fault'):
                self.bad('undisturbed-call-failed', f'{o["cid"]}: {type(e).__name__} {e}')
            return
        self.sim.retrace()
        if o.get('fail'):
            self.bad('fault-lost', o['cid'])
            return
        rh = r.soap_header
        if self.case['hdr'] == 'service':
            return     # the stub reads headers of methods only; the wire is compared below
        self.pairs += 1
        if rh is None or rh.RelatesTo != mid or rh.Action != o['action'] + 'Response':
            self.bad('wrong-correlation', f'{o["cid"]}: sent {mid!r} {o["action"]!r}, the reply relates to {getattr(rh, "RelatesTo", None)!r} '
                                          f'with action {getattr(rh, "Action", None)!r}')

    def foreign(self, i, o):
        import requests
        from xml.sax.saxutils import escape
        rr = random.Random(o['salt'])
        p = o['p']
        part = [f'<{p}:Action>{escape(o["action"])}</{p}:Action>']
        if o['mid'] is not None:
            part.append(f'<{p}:MessageID>{escape(o["mid"])}</{p}:MessageID>')
        part.append(f'<{p}:To>http://server/ws</{p}:To>')
        o['sent'], o['sentto'] = o['mid'], 'http://server/ws'
        for x in o['extra']:
            part.append(x.format(p=p))
        if o['via'] == 'bad':
            bad = BAD[o['bad']].format(p=p)
            tag = re.match(r'<\w+:(\w+)', bad).group(1)
            if rr.random() < 0.6:
                part = [x for x in part if not x.startswith(f'<{p}:{tag}')]
            part.append(bad)
        if self.case['hdr'] == 'app' or not self.case['strict']:
            part.append(f'<i:identity xmlns:i="{NS}">{o["cid"]}</i:identity>' if self.case['hdr'] == 'app' or rr.random() < 0.5 else '<z xmlns="urn:else"/>')
        rr.shuffle(part)
        env = spec.ENV[self.case['v']]
        own = rr.random() < 0.5
        if own:      # every block declares the prefix itself
            part = [re.sub(r'^<(\w+:\w+)', lambda m: f'<{m.group(1)} xmlns:{p}="{WSA}"', x) if x.startswith(f'<{p}:') else x for x in part]
        el = 'req' if o['op'] == 'Get' else 'req2'
        c = 'q:cid' if self.case['qual'] else 'cid'
        gap = rr.choice(['', '\n  ', '<!-- x -->'])
        body = (f'<?xml version="1.0" encoding="utf-8"?><e:Envelope xmlns:e="{env}"' + ('' if own else f' xmlns:{p}="{WSA}"') + f'><e:Header>{gap}' +
                gap.join(part) + f'</e:Header><e:Body><q:{el} xmlns:q="{NS}"><{c}>{o["cid"]}</{c}></q:{el}></e:Body></e:Envelope>')
        act = 'urn:get' if o['op'] == 'Get' else 'urn:put'
        hd = {'Content-Type': 'text/xml', 'SOAPAction': act} if self.case['v'] == 11 else {'Content-Type': f'application/soap+xml; action="{act}"'}
        o['text'] = body
        try:
            r = requests.post('http://server/ws', data=body.encode(), headers=hd)
            r.content
        except Exception as e:
            self.sim.retrace()
            if not o.get('fault'):
                self.bad('undisturbed-call-failed', f'{o["cid"]}: {type(e).__name__} {e}')
            return
        self.sim.retrace()

    # ---- judging what the server answered
    def judge(self):
        from lxml import etree
        for r in self.server.responses:
            o = self.ops[r['call']]
            ran = [x for x in self.execs if x['call'] == r['call']]
            if 'crash' in r:
                self.bad('server-crashed', f'{r["crash"]!r} on {r["req"][:600]!r}')
                continue
            env = spec.ENV[self.case['v']]
            doc = etree.fromstring(r['body'])
            fault = doc.find(f'.//{{{env}}}Fault')
            if o['via'] == 'bad':
                if ran:
                    self.bad('malformed-header-served', f'{o["bad"]}: the handler ran on {o["text"]}')
                elif fault is None:
                    self.bad('malformed-header-accepted', f'{o["bad"]}: answered {r["body"][:300]!r}')
                elif b'Client' not in r['body'] and b'Sender' not in r['body']:
                    self.bad('not-a-client-fault', f'{o["bad"]}: {r["body"][:400]!r}')
                continue
            if not ran:
                self.bad('conforming-refused', f'{r["req"][:900]!r} answered {r["body"][:400]!r}')
                continue
            for x in ran:
                if (x['cid'], x['act'], x['mid'], x['to']) != (o['cid'], o['action'], o['sent'], o['sentto']):
                    self.bad('handler-saw-other-header', f'{x} instead of {o["cid"]} {o["action"]!r} {o["sent"]!r} {o["sentto"]!r}')
            if o.get('fail') and fault is None:
                self.bad('fault-lost', f'{o["cid"]}: {r["body"][:400]!r}')
            if o.get('fail') is True:
                continue
            h = doc.find(f'{{{env}}}Header')
            got = {k: [e.text for e in h.iter(f'{{{WSA}}}{k}')] if h is not None else [] for k in ('Action', 'MessageID', 'RelatesTo', 'To')}
            want = [o['sent']] if o['sent'] is not None else []
            if got['RelatesTo'] != want or got['Action'] != [o['action'] + 'Response']:
                self.bad('wrong-correlation', f'{o["cid"]}: request {o["sent"]!r} {o["action"]!r}, reply header {got}')
            if len(got['MessageID']) != 1 or got['MessageID'][0] not in self.ids:
                self.bad('wrong-identifier', f'{o["cid"]}: reply header {got}')
            self.pairs += 1

    def run(self):
        c, p = self.case, self.p
        CLK.skew.clear()
        for host in (world.HOST, 'client0', 'client1', 'client2'):
            if p['clock'].get('frozen'):
                CLK.frozen[host] = CLK.base
        for at, d in p['clock'].get('jumps', ()):
            self.sim.after(at, lambda d=d: [CLK.skew.__setitem__(h, CLK.skew.get(h, 0.0) + d) for h in (world.HOST, 'client0', 'client1', 'client2')])
        self.svc, self.H, self.Req, self.Rsp = self.classes()
        from soapfish import middlewares
        app = front.FRONTS[c['front']](self.svc, middlewares=[middlewares.ExceptionToSoapFault()], strict_soap_header=c['strict'])
        self.server = front.Server(self.sim, self.net, app, world.HOST)
        STATE.net = self.net
        by = {}
        for i, o in self.ops.items():
            by.setdefault(o['client'], []).append((i, o))
        for k in sorted(by):
            self.sim.spawn(f'client{k}', lambda todo=by[k]: self.client(todo), host=f'client{k}')
        stuck = self.sim.run()
        STATE.net = None
        if stuck:
            self.bad('stuck', stuck)
        for t in self.sim.tasks:
            if t.name.startswith('client') and t.exc is not None:
                raise t.exc
        self.judge()
        for _ in range(c['bulk']):
            self.fill(self.H(), None, 'bulk')
        f = dict(self.net.fired)
        if p['clock']:
            k = 'clock_frozen' if 'frozen' in p['clock'] else 'clock_jump'
            f[k] = f.get(k, 0) + 1
        return {'ids': self.ids, 'viol': self.viol[:10], 'pairs': self.pairs, 'sig': self.sim.sig, 'simt': CLK.t, 'steps': self.sim.steps,
                'npre': self.sim.npreempt, 'faults': f, 'log': [list(x) for x in self.sim.log][:100], 'threads': len(by)}


def fresh():
    """A process of its own imports the library itself (a forked one inherits it)."""
    import importlib
    import sys
    names = sorted(n for n in sys.modules if n == 'soapfish' or n.startswith('soapfish.'))
    for n in names:
        del sys.modules[n]
    for n in names:
        importlib.import_module(n)
    sys.modules['soapfish.core']


def run(case, v):
    procs = list(enumerate(case['procs']))
    out = []
    masters = {}
    for i, p in procs:
        if p.get('master') is not None:
            masters.setdefault(p['master'], []).append((i, p))
        else:
            def alone(i=i, p=p):
                seams.new_process(p['node'], p['pid'], i, case['seed'], p['start'])
                fresh()
                return Proc(case, p).run()
            out.append((i, solo(alone)))
    for m, ws in sorted(masters.items()):
        def master(m=m, ws=ws):
            p0 = ws[0][1]
            seams.new_process(p0['node'], p0['pid'], 1000 + m, case['seed'], p0['start'])
            fresh()
            from soapfish import wsa
            ids = []
            for _ in range(case['prefill']):
                h = wsa.Header()
                wsa.fill_header(h)
                ids.append(h.MessageID)

            def worker(i, p):
                seams.new_process(p0['node'], p0['pid'] + 1 + i, 2000 + i, case['seed'])
                return Proc(case, p).run()
            return {'ids': ids, 'workers': [(i, solo(lambda i=i, p=p: worker(i, p))) for i, p in ws]}
        r = solo(master)
        out.append((f'master{m}', {'ids': r['ids'], 'viol': [], 'pairs': 0, 'sig': 0, 'simt': 0, 'steps': 0, 'npre': 0, 'faults': {'fork': len(ws)}, 'log': [],
                                   'threads': 0}))
        out.extend(r['workers'])
    seen = {}
    res = {'sig': 0, 'simt': 0.0, 'steps': 0, 'npre': 0, 'faults': {}, 'log': []}
    n = pairs = 0
    for i, r in out:
        for kind, text in r['viol']:
            v(kind, f'process {i}: {text}')
        for m in r['ids']:
            n += 1
            if m in seen:
                v('identifier-repeated', f'{m!r} filled by process {seen[m]} and by process {i}')
                break
            seen[m] = i
        pairs += r['pairs']
        res['sig'] ^= r['sig']
        for k in ('simt', 'steps', 'npre'):
            res[k] += r[k]
        for k, x in r['faults'].items():
            res['faults'][k] = res['faults'].get(k, 0) + x
        res['log'].extend(r['log'])
    th = sum(r['threads'] for _, r in out)
    res.update(nontrivial=bool(pairs and th > 1), key=str(case['seed']), probes={'identifiers': n, 'replies_correlated': pairs, 'processes': len(out)},
               summary=f'{len(out)} processes, {n} identifiers, {pairs} replies correlated')
    return res


def reductions(case):
    for i, p in enumerate(case['procs']):
        for j in range(len(p['ops'])):
            q = dict(p, ops=p['ops'][:j] + p['ops'][j + 1:])
            yield dict(case, procs=case['procs'][:i] + [q] + case['procs'][i + 1:])
        if p['clock']:
            yield dict(case, procs=case['procs'][:i] + [dict(p, clock={})] + case['procs'][i + 1:])
        if p['sched'].get('p') or p['sched'].get('park') or p['sched'].get('hot'):
            yield dict(case, procs=case['procs'][:i] + [dict(p, sched={'mode': 'rand', 'seed': 0, 'p': 0.0})] + case['procs'][i + 1:])
