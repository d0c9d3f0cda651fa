"""C10: published descriptions are correct for each requester and complete."""
import urllib.parse

from dst import front, mutate, spec, world
from props import c03

RULE = ('A case is a random service with its tree of schemas behind one of the front ends and 2-8 concurrent activities: clients that '
        'fetch the WSDL under a name, scheme, port or forwarding header of their own and follow every schema reference until nothing '
        'new turns up, over a network that loses, cuts, duplicates and delays, some of them twice, and clients that send conforming '
        'and nonconforming messages; the server process may crash and come back. The address, the references, the operations and the '
        'stability of the bytes are checked for every requester; the fetched schemas are compiled and their verdict on every message '
        'sent is compared with what the service did. Non-trivial: two different requesters got the whole closure.')
COMPONENTS = world.components()
QUICK, THOROUGH, QUICK_S, THOROUGH_S = 100000, 10000000, 25, 600
LISTS = ('ops',)
SIMPLER = {'front': 'wsgi', 'pieces': 0, 'framing': 'length', 'segment': 65536, 'crash': None, 'work': False, 'share': False, 'custom': None}
ASSUMPTIONS = ['The requester is whoever the Host header and X-Forwarded-Proto (else the WSGI url scheme) name.',
               'libxml2 compiles and applies the fetched schemas correctly.']

NAMES = ('alpha', 'beta', 'gamma', 'delta')
HOSTS = (None, None, 'pub.example', 'PUB.example', 'pub.example:8443', 'x--y.example:81', 'Mixed.Example', 'pub.example:80', 'pub.example:443', '[2001:db8::1]:8080', '10.1.2.3')
EVIL = ('a&b', 'q"<x>', "it's", '$${x}', '${scheme}', 'a{0}%s', '<!--', 'h&amp;h', '$1\\1', '\\g<0>')
QS = ('wsdl', 'wsdl', 'wsdl', 'singleWsdl', 'wsdl=', 'x=1&wsdl', 'wsdl&y=2')
FAULTS = ('refuse', 'dns', 'unreachable', 'rst_on_send', 'req_lost', 'dup', 'delay', 'resp_lost', 'resp_cut', 'gw')
WSDL_NS = 'http://schemas.xmlsoap.org/wsdl/'
BIND = {11: 'http://schemas.xmlsoap.org/wsdl/soap/', 12: 'http://schemas.xmlsoap.org/wsdl/soap12/'}
CUSTOM = ('<?xml version="1.0" encoding="%s"?>\n<w:definitions xmlns:w="http://schemas.xmlsoap.org/wsdl/" xmlns:s="%s" name="ünï">'
          '<w:documentation>costs 5$ or $$, é, 100%% {0}</w:documentation><w:service name="S"><w:port name="P"><s:address '
          'location="${scheme}://${host}/own"/></w:port></w:service></w:definitions>')


def gen(rng, tier):
    c = world.gen_case(rng, tier, p_fault=0.0, p_foreign=1.0, p_crash=0, p_soaperr=0, p_exc=0,
                       fronts=('wsgi',) * 8 + ('flask', 'django'), gopts={'imports': rng.choice([0, 1, 1, 2, 2, 3, 4]), 'tops': 0.3})
    svc = c['svc']
    svc['loc'] = rng.choice(['${scheme}://${host}/ws', '${scheme}://${host}/a/b', 'http://server/ws', '${scheme}://${host}/',
                             'http://${host}/ws', '${scheme}://${host}/p?q=1'])
    for s in svc['schemas']:
        for t in s['types']:
            if t.get('enum') and rng.random() < 0.3:
                t['enum'].append(rng.choice(['US$$', 'a$b', '$', '100%', 'ünï', 'x<y', '$nope']))
        if s['loc'] and rng.random() < 0.3:
            s['loc'] = rng.choice(['a b.xsd', 'ü.xsd', 'a+b.xsd', 's#1.xsd', 'x%20y.xsd', '../up.xsd', 'a;b=c.xsd', "it's.xsd",
                                   'q?wsdl', 's&s.xsd', '/abs/s.xsd']) + str(s['id'])
        elif s['loc'] and rng.random() < 0.3:        # the same name in several directories
            s['loc'] = rng.choice(['d%d/types.xsd', 'http://h%d.example/types.xsd', 'http://schemas.example/v%d/types.xsd', 'types.xsd?v=%d',
                                   'Types%d.xsd', 'types%d.xsd']) % s['id']
    if len(svc['schemas']) > 1 and rng.random() < 0.15:      # the service lists an imported schema itself as well
        s = rng.choice(svc['schemas'][1:])
        if any(s['id'] in p['imports'] for p in svc['schemas']):
            s['top'] = True
    ops = []
    nd = rng.randint(2, 4)
    if c['front'] != 'wsgi':
        nd = 2
    for k in range(nd):
        a = {'net': rng.choice(NAMES), 'scheme': rng.choice(['http', 'http', 'https']), 'host': rng.choice(HOSTS), 'qs': rng.choice(QS)}
        if rng.random() < 0.3:
            a['fwd'] = rng.choice(['https', 'http'])
        if c['front'] == 'wsgi' and rng.random() < 0.2:
            a['host'] = rng.choice(EVIL)
        if ops and rng.random() < 0.25:
            a = dict(ops[0]['who'])
        o = {'id': 100 + k, 'client': 10 + k if rng.random() < 0.8 else 10, 'via': 'describe', 'who': a, 'wait': rng.choice([0, 0, 0, 0.001, 0.02]),
             'faults': []}
        if rng.random() < 0.3:
            o['faults'] = [world.gen_fault(rng, FAULTS) if rng.random() < 0.7 else None for _ in range(rng.randint(1, 5))]
            for f in o['faults']:
                if f and f.get('kind') == 'resp_cut':
                    f['part'] = 'body'       # half a header would be an answer without length
                if f and f.get('kind') == 'gw' and f['status'] < 400:
                    f['status'] = 503
        ops.append(o)
    # under one name a server is seen with one scheme
    seen = {}
    for o in ops:
        o['who']['scheme'] = seen.setdefault(o['who']['net'], o['who']['scheme'])
    for o in c['ops']:
        o.pop('fault', None)
        if rng.random() < 0.6:
            m = spec.method_of(svc, o['op'])
            st = spec.Style(rng)
            data = spec.ref_message(svc, o.get('alt') or m['in'], o['arg'], st, o.get('ih'))
            data, labels = mutate.message(rng, svc, data)
            o['raw'] = mutate.b64(data)
            o['mut'] = labels
    rng.shuffle(c['ops'])
    del c['ops'][rng.randint(0, 5):]
    c['ops'] += ops
    rng.shuffle(c['ops'])
    if any(o.get('faults') for o in ops) and c['framing'] == 'close':
        c['framing'] = 'length'
    if c['front'] == 'wsgi' and rng.random() < 0.1:
        c['custom'] = rng.choice(['utf-8', 'iso-8859-1'])
    if rng.random() < 0.1:
        c['crash'] = {'at': rng.choice([0.0005, 0.005, 0.02]), 'down': rng.choice([0.001, 0.05])}
        for o in c['ops']:
            if o['via'] == 'foreign':
                o['wait'] = 1.0
    return c


class W(world.World):
    BY_CONN = True

    def __init__(self, case):
        super().__init__(case)
        self.docs = {}       # op id -> {url: bytes}
        self.bad = []

    def plan(self, call, attempt, host):
        o = self.ops.get(call)
        if o is None:
            return None
        if o['via'] == 'describe':
            k = o.setdefault('_k', 0)
            o['_k'] += 1
            fs = o.get('faults') or []
            return dict(fs[k]) if k < len(fs) and fs[k] else None
        return super().plan(call, attempt, host)

    def extra_dispatch(self):
        e = self.case.get('custom')
        return {'wsdl': (CUSTOM % (e, BIND[self.svc['v']])).encode(e)} if e else {}

    def start_server(self):
        super().start_server()
        for o in self.case['ops']:
            if o['via'] == 'describe':
                self.net.serve(o['who']['net'], self.server.deliver)
                self.server.schemes[o['who']['net']] = o['who']['scheme']
        if self.case.get('crash'):
            # the names belong to one process
            real = self.server.crash

            def crash(*a):
                for n in self.server.schemes:
                    self.net.crash(n)
                real(*a)

                def up():
                    self.net.down.clear()
                self.sim.after(a[0], up)
            self.server.crash = crash

    def do(self, o):
        return self.describe(o) if o['via'] == 'describe' else super().do(o)

    def fetch(self, o, url):
        """The content of one document, however often it takes: ('ok', bytes) or ('status', n, bytes)."""
        import requests
        who = o['who']
        h = {}
        if who.get('host'):
            h['Host'] = who['host']
        if who.get('fwd'):
            h['X-Forwarded-Proto'] = who['fwd']
        last = None
        for n in range(len(o.get('faults') or ()) + 8):
            try:
                r = requests.get(url, headers=h)
                data = r.content
            except Exception as x:
                last = ('exc', type(x).__name__, str(x)[:200])
                self.sim.retrace()
                self.sim.sleep(0.05)
                continue
            self.sim.retrace()
            if r.status_code in (502, 503, 504) or r.status_code != 200 and 'gw-page' in r.headers:
                last = ('status', r.status_code, data[:200])
                continue
            if r.status_code != 200:
                last = ('status', r.status_code, data[:200])
                if n < len(o.get('faults') or ()):
                    continue
                return last
            return ('ok', data, r.headers.get('Content-Type'))
        return last

    def describe(self, o):
        from lxml import etree
        who = o['who']
        path = urllib.parse.urlsplit(self.svc['loc'].replace('$scheme', 'http').replace('$host', 'h')
                                     .replace('${scheme}', 'http').replace('${host}', 'h')).path
        start = f'http://{who["net"]}{path}?{who["qs"]}'
        docs = self.docs.setdefault(o['id'], {})
        todo = [(start, None)]
        while todo:
            url, by = todo.pop(0)
            if url in docs:
                continue
            if urllib.parse.urlsplit(url).netloc != who['net']:
                h = seen_host(who)
                # an absolute reference to the server under its public name comes back to it
                u = urllib.parse.urlsplit(url)
                if u.netloc in (h, who['net']):
                    url2 = f'http://{who["net"]}{u.path}?{u.query}'
                else:
                    self.bad.append(('reference-elsewhere', o['id'], f'{by} refers to {url}, which is not on this server'))
                    continue
            else:
                url2 = url
            r = self.fetch(o, url2)
            if r[0] != 'ok':
                self.bad.append(('reference-unavailable' if by else 'wsdl-unavailable', o['id'], f'{url} (referred to by {by}): {r}'))
                continue
            docs[url] = r[1]
            if not (r[2] or '').startswith('text/xml'):
                self.bad.append(('wrong-content-type', o['id'], f'{url}: {r[2]}'))
            try:
                root = etree.fromstring(r[1])
            except etree.XMLSyntaxError as x:
                self.bad.append(('not-well-formed', o['id'], f'{url}: {x}: {r[1][:300]!r}'))
                continue
            for e in root.iter(f'{{{spec.XSD}}}import', f'{{{spec.XSD}}}include'):
                if e.get('schemaLocation') is not None:
                    todo.append((urllib.parse.urljoin(url, e.get('schemaLocation')), url))
        return {'done': True, 'start': start}


def seen_host(who):
    return who.get('host') or who['net']


def expected(loc, who):
    s = who.get('fwd') or who['scheme']
    h = seen_host(who)
    out = loc
    for k, x in (('${scheme}', s), ('$scheme', s)):
        out = out.replace(k, x)
    i = out.find('${host}')
    for k in ('${host}', '$host'):
        i = out.find(k)
        if i >= 0:
            out = out[:i] + h + out[i + len(k):]
            break
    return out


def compile_(docs, start):
    """XMLSchema from the fetched documents and nothing else."""
    from lxml import etree
    table = {}

    def settle(url, el):
        for e in el.iter(f'{{{spec.XSD}}}import', f'{{{spec.XSD}}}include'):
            if e.get('schemaLocation') is not None:
                e.set('schemaLocation', key(urllib.parse.urljoin(url, e.get('schemaLocation'))))
        return etree.tostring(el)

    def key(url):
        return 'mem:' + ''.join(f'{b:02x}' for b in url.encode())

    wsdl = etree.fromstring(docs[start])
    inline = wsdl.findall(f'{{{WSDL_NS}}}types/{{{spec.XSD}}}schema')
    for u, d in docs.items():
        if u != start:
            table[key(u)] = settle(u, etree.fromstring(d))
    root = etree.Element(f'{{{spec.XSD}}}schema')
    for n, el in enumerate(inline):
        table[f'mem:{n}'] = settle(start, el)
        etree.SubElement(root, f'{{{spec.XSD}}}import', namespace=el.get('targetNamespace'), schemaLocation=f'mem:{n}')

    class R(etree.Resolver):
        def resolve(self, url, pid, ctx):
            if url in table:
                return self.resolve_string(table[url], ctx)
            raise ValueError(url)

    p = etree.XMLParser()
    p.resolvers.add(R())
    return etree.XMLSchema(etree.fromstring(etree.tostring(root), p))


def references(svc, root, docs, start):
    """What a WSDL toolkit looks up by qualified name: yields what is not there."""
    from lxml import etree
    W = f'{{{WSDL_NS}}}'
    tns = root.get('targetNamespace')

    def q(e, attr):
        pre, _, name = e.get(attr).rpartition(':')
        ns = e.nsmap.get(pre or None)
        return f'{{{ns}}}{name}'

    glob = {'element': set(), 'type': set()}
    schemas = root.findall(f'{W}types/{{{spec.XSD}}}schema') + [etree.fromstring(d) for u, d in docs.items() if u != start]
    for s in schemas:
        for c in s:
            if isinstance(c.tag, str) and c.get('name'):
                kind = {'element': 'element', 'complexType': 'type', 'simpleType': 'type'}.get(etree.QName(c).localname)
                if kind:
                    glob[kind].add(f'{{{s.get("targetNamespace")}}}{c.get("name")}')
    messages = {f'{{{tns}}}{m.get("name")}': m for m in root.iterfind(W + 'message')}
    ports = {f'{{{tns}}}{m.get("name")}' for m in root.iterfind(W + 'portType')}
    bindings = {f'{{{tns}}}{m.get("name")}' for m in root.iterfind(W + 'binding')}
    for b in root.iterfind(W + 'binding'):
        if q(b, 'type') not in ports:
            yield f'binding of {q(b, "type")}'
    for p in root.iterfind(f'{W}service/{W}port'):
        if q(p, 'binding') not in bindings:
            yield f'port of {q(p, "binding")}'
    for op in root.iterfind(f'{W}portType/{W}operation'):
        m = spec.method_of(svc, op.get('name'))
        for io, tag in (('in', 'input'), ('out', 'output')):
            r = q(op.find(W + tag), 'message')
            if r not in messages:
                yield f'{op.get("name")} {tag}: message {r}'
                continue
            for part in messages[r].iterfind(W + 'part'):
                kind = 'element' if part.get('element') else 'type'
                got = q(part, kind)
                if got not in glob[kind]:
                    yield f'{op.get("name")} {tag}: {kind} {got} is not among the declared {sorted(glob[kind])}'
                elif m.get(io + '_cls') is None:
                    sch, e = spec.find_elem(svc, m[io])
                    if got != f'{{{sch["ns"]}}}{e["name"]}':
                        yield f'{op.get("name")} {tag}: {got} instead of {e["name"]} of {sch["ns"]}'


def bound(svc, root):
    """The bindings say how the messages are put into SOAP: yields what a client would get wrong."""
    W, S = f'{{{WSDL_NS}}}', f'{{{BIND[svc["v"]]}}}'
    for b in root.iterfind(W + 'binding'):
        sb = b.findall(S + 'binding')
        if len(sb) != 1 or sb[0].get('style', 'document') != 'document' or sb[0].get('transport') != 'http://schemas.xmlsoap.org/soap/http':
            yield f'{[dict(x.attrib) for x in sb]}'
        if [e.get('name') for e in b.iterfind(W + 'operation')] != [m['op'] for m in svc['methods']]:
            yield f'{[e.get("name") for e in b.iterfind(W + "operation")]}'
        for op in b.iterfind(W + 'operation'):
            for io in ('input', 'output'):
                got = [[c.tag, c.get('use')] for x in op.findall(W + io) for c in x if c.tag != S + 'header']
                if got != [[S + 'body', 'literal']] or op.find(S + 'operation').get('style', 'document') != 'document':
                    yield f'{op.get("name")} {io}: {got}'


def check(w, v):
    from lxml import etree
    case, svc = w.case, w.svc
    for kind, i, text in w.bad:
        v(kind, f'requester {w.ops[i]["who"]}: {text}')
    if w.bad:
        return 0, None
    whole = set()
    byreq = {}
    val = None
    for o in case['ops']:
        if o['via'] != 'describe':
            continue
        who = o['who']
        out = w.outcomes.get(o['id'])
        if out is None:
            v('description-never-completed', f'requester {who}')
            continue
        docs = w.docs[o['id']]
        root = etree.fromstring(docs[out['start']])
        if case.get('custom'):
            want = (CUSTOM % (case['custom'], BIND[svc['v']])).replace('${scheme}', who.get('fwd') or who['scheme']).replace('${host}', '\0')
            got = docs[out['start']].decode(case['custom'])
            a, b = want.split('\0')
            if not (got.startswith(a) and got.endswith(b)):
                v('own-wsdl-changed', f'requester {who}: {got}')
        locs = [e.get('location') for e in root.iterfind(f'{{{WSDL_NS}}}service/{{{WSDL_NS}}}port/{{{BIND[svc["v"]]}}}address')]
        want = expected('${scheme}://${host}/own' if case.get('custom') else svc['loc'], who)
        if locs != [want]:
            v('wrong-address', f'requester {who}: {locs} instead of {want}')
        if not case.get('custom'):
            got = [e.get('name') for e in root.iterfind(f'{{{WSDL_NS}}}portType/{{{WSDL_NS}}}operation')]
            if got != [m['op'] for m in svc['methods']]:
                v('wrong-operations', f'requester {who}: {got}')
            got = [e.get('soapAction') for e in root.iterfind(f'{{{WSDL_NS}}}binding/{{{WSDL_NS}}}operation/{{{BIND[svc["v"]]}}}operation')]
            if got != [m['action'] for m in svc['methods']]:
                v('wrong-actions', f'requester {who}: {got}')
            for x in bound(svc, root):
                v('wrong-binding', f'requester {who}: {x}')
                break
            for x in references(svc, root, docs, out['start']):
                v('dangling-reference', f'requester {who}: {x}')
                break
            if val is None:
                try:
                    val = compile_(docs, out['start'])
                except Exception as x:
                    v('schemas-do-not-compile', f'requester {who}: {type(x).__name__}: {x}; documents {sorted(docs)}')
                    return 0, None
        whole.add(expected('${scheme}://${host}', who))
        k = (who.get('fwd') or who['scheme'], seen_host(who))
        for u, d in docs.items():
            q = urllib.parse.urlsplit(u).query
            q = 'wsdl' if u == out['start'] else q
            old = byreq.setdefault((k, q), d)
            if old != d:
                v('document-changed', f'requester {who}: ?{q} was {old!r} before, is {d!r} now')
    return len(whole), val


def run(case, v):
    w = W(case).run()
    n, val = check(w, v)
    bad = good = 0
    if val is not None and not case.get('crash'):
        bad, good = c03.check(w, v, val)
    w.liveness(v)
    closure = sum(len(d) for d in w.docs.values())
    return w.result(nontrivial=n >= 2 and closure > 2, key=f'{w.sim.sig}:{case["seed"]}',
                    probes={'documents_fetched': closure, 'requesters_served': n, 'judged_nonconforming': bad, 'judged_conforming': good},
                    summary=f'{n} requesters, {closure} documents, {bad} nonconforming and {good} conforming messages')
