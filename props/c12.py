"""C12: code generation covers the whole document set or fails cleanly."""
import ast
import base64
import builtins
import os
import random
import re
import shutil
import sys
import threading
import types

from lxml import etree

from dst import docs, world
from dst.fs import FS, HARMLESS
from dst.harness import solo
from dst.net import Net
from dst.sched import Sim
from dst.seams import STATE

RULE = ('A case is 1-2 sets of 1-7 WSDL/XSD documents on a simulated disk and web server (random directories with equal file names, relative, '
        'dotted and absolute references, imports and includes, chameleon includes, diamonds, cycles, inline schemas, decoys at the places '
        'a wrong base would lead to) and 1-3 generations running concurrently under a seeded schedule, with missing, unreadable, truncated '
        'and failing files, refused, lost, reset, cut, damaged and replaced HTTP answers; then the same generations again without '
        'faults. Compared with what the set declares and with a fresh process. Non-trivial: a generation succeeded and a fault fired '
        'or two generations ran.')
COMPONENTS = {'real': ['soapfish wsdl2py, xsd2py, utils, xsdspec, wsdl11/12, templates', 'jinja2', 'lxml/libxml2', 'requests + urllib3 + http.client'],
              'stub': ['TCP and the web server of the documents', 'file objects (real files of a scratch directory behind a failing raw layer)',
                       'thread scheduler (baton, seeded)', 'clocks, randomness']}
QUICK, THOROUGH, QUICK_S, THOROUGH_S = 100000, 10000000, 30, 600
LISTS = ('jobs',)
SIMPLER = {}
ASSUMPTIONS = ['Documents reached in two ways may be generated twice; that changes nothing for importers of the code.',
               'A root schema inside an import cycle is not generated (known limit).']

DISK = ('enoent', 'eacces', 'emfile', 'eio', 'eio', 'cut', 'cut', 'cut', 'short')
NETK = ('refuse', 'dns', 'unreachable', 'rst_on_send', 'req_lost', 'resp_lost', 'resp_cut', 'resp_cut', 'resp_cut', 'resp_damage', 'gw', 'gw', 'gw', 'dup', 'delay')
CODEGEN = ('/wsdl2py.py', '/xsd2py.py', '/utils.py', '/wsdl.py', '/py2wsdl.py', '/py2xsd.py', '/xsdspec.py', '/wsdl11.py', '/wsdl12.py')
HARM = ('refuse', 'dns', 'unreachable', 'rst_on_send', 'req_lost', 'resp_lost', 'resp_cut', 'resp_damage', 'gw')


def gen_jobs(rng, sets, p_fault=0.6, n=None):
    jobs = []
    for i in range(n or rng.choice([1, 2, 2, 3])):
        k = rng.randrange(len(sets))
        sp = sets[k]
        j = {'id': i, 'set': k, 'target': rng.choice(['client', 'server']), 'wsa': rng.random() < 0.2, 'wait': rng.choice([0, 0, 0.001, 0.01])}
        if rng.random() < p_fault:
            d = rng.choice(sorted(docs.reach(sp)))
            if sp['docs'][d]['place'] == 'disk':
                j['disk'] = [d, {'kind': rng.choice(DISK), 'at': rng.randrange(100000)}]
            else:
                f = world.gen_fault(rng, NETK)
                if f.get('kind') == 'gw' and rng.random() < 0.4:      # an error whose page is a document all the same
                    f['body'] = base64.b64encode(rng.choice([docs.decoy_xml('xsd', 'Err'), docs.decoy_xml('wsdl', 'Err')]).encode()).decode()
                    f['ct'] = 'text/xml'
                    f['status'] = rng.choice([400, 403, 404, 410, 500, 502, 503])
                j['net'] = [rng.randrange(max(1, sum(1 for x in docs.reach(sp) if sp['docs'][x]['place'] == 'web'))), f]
        jobs.append(j)
    return jobs


def gen(rng, tier):
    sets = [docs.gen(rng, key=chr(97 + i)) for i in range(rng.choice([1, 1, 2]))]
    return {'seed': rng.randrange(1 << 30), 'sched': world.gen_sched(rng), 'sets': sets, 'jobs': gen_jobs(rng, sets), 'segment': rng.choice([65536, 65536, 512, 64]), 'deep': rng.random() < 0.04}


class Scratch:
    """A directory of its own for this case, with a constant length of name."""

    def __init__(self, tag='c12'):
        self.dir = f'/tmp/dst-{tag}-{threading.get_native_id():08d}'

    def __enter__(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.cwd = os.getcwd()
        os.makedirs(self.dir + '/cwd')
        os.chdir(self.dir + '/cwd')
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.cwd)
        shutil.rmtree(self.dir)


def mask(code):
    return re.sub(r'(?m)^# Note: Generated by (\S+) at .*$', r'# Note: Generated by \1', code)


class Run:
    """Generation jobs as tasks of one simulated process."""

    def __init__(self, case, base, jobs, faults=True, sched=None, fs=None):
        self.case, self.base, self.jobs = case, base, jobs
        self.sets = case['sets']
        self.sim = Sim(sched or case['sched'], max_steps=3_000_000)
        self.by = {j['id']: j for j in jobs}
        self.faults = faults
        self.net = Net(self.sim, self.plan, segment=case.get('segment', 65536))
        self.files = fs if fs is not None else {}
        if fs is None:
            for s in self.sets:
                self.files.update(docs.files(s, base))
        plan = {}
        for j in jobs:
            if faults and 'disk' in j:
                d, f = j['disk']
                sp = self.sets[j['set']]
                p = docs.path_of(sp['docs'][d], base, sp)
                f = dict(f)
                if f['kind'] in ('cut', 'eio'):
                    f['at'] %= len(self.files[p].rstrip()) - 1
                plan.setdefault('r:' + p, []).append(f)
        self.fs = FS(base, plan, self.sim)
        self.results = {}

    def plan(self, call, attempt, host):
        j = self.by.get(call)
        if not self.faults or j is None or 'net' not in j or attempt != j['net'][0]:
            return None
        return j['net'][1]

    def harmed(self, j):
        """Did a fault that makes a document unreadable hit this job?"""
        if any(n == f'gen{j["id"]}' and k not in HARMLESS for n, k in self.fs.byname):
            return True
        return any(c.call == j['id'] and c.fault.get('_fired') and c.fault.get('kind') in HARM for c in self.net.conns)

    def job(self, j):
        from soapfish import utils, wsdl2py, xsd2py
        t = self.sim.current()
        t.call, t.attempt = j['id'], 0
        if j.get('wait'):
            self.sim.sleep(j['wait'])
        sp = self.sets[j['set']]
        cwd = docs.cwd_of(sp, self.base)
        try:
            xml = utils.open_document(docs.root_path(sp, self.base))
            if sp['docs'][0]['kind'] == 'wsdl':
                code = wsdl2py.generate_code_from_wsdl(xml, j['target'], use_wsa=j['wsa'], cwd=cwd)
            else:
                code = xsd2py.generate_code_from_xsd(xml, cwd=cwd)
            r = {'code': mask(code.decode('utf-8'))}
        except Exception as x:
            r = {'exc': type(x).__name__, 'msg': str(x)[:200]}
        self.sim.retrace()
        self.results[j['id']] = r
        self.sim.ev('generated', j['id'], r.get('exc') or len(r['code']))

    def run(self, together=True, trace=True):
        self.sim.only = None if self.case.get('deep') else CODEGEN
        STATE.net = self.net
        docs.serve(self.net, self.sim, self.files, self.sets[0]['framing'])
        with self.fs:
            if together:
                for j in self.jobs:
                    self.sim.spawn(f'gen{j["id"]}', lambda j=j: self.job(j), trace=trace)
            else:
                def all_():
                    for j in self.jobs:
                        self.job(j)
                self.sim.spawn('gen', all_, trace=trace)
            self.stuck = self.sim.run()
        STATE.net = None
        for t in self.sim.tasks:
            if t.exc is not None and type(t.exc).__name__ != 'StepLimit':
                raise t.exc
        return self


def fresh(case, base, j):
    r = Run(case, base, [dict(j, wait=0)], faults=False, sched={'mode': 'rand', 'seed': 0, 'p': 0.0}).run(trace=False)
    return r.results.get(j['id']) or {'exc': 'stuck', 'msg': str(r.stuck or 'step budget exceeded')}


def fields_of(cls):
    return {t.id for st in cls.body if isinstance(st, ast.Assign) for t in st.targets if isinstance(t, ast.Name)}


def judge(sp, j, code, v):
    """The code defines everything the set declares, and nothing else."""
    try:
        tree = ast.parse(code)
    except SyntaxError as x:
        v('code-does-not-compile', f'{x}; job {j}')
        return
    classes = {}
    for n in tree.body:
        if isinstance(n, ast.ClassDef):
            classes.setdefault(n.name, []).append(n)
    cl, el = docs.expected(sp)
    if cl - set(classes):
        v('definition-missing', f'classes {sorted(cl - set(classes))} of the documents are not in the code; job {j}')
    decoy = [c for c in classes if c.startswith('Decoy')]
    if decoy:
        v('foreign-document', f'{decoy} come from a document nobody refers to; job {j}')
    known = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.keyword) and n.arg == 'elements' and isinstance(n.value, ast.Dict):
            known |= {k.value for k in n.value.keys if isinstance(k, ast.Constant)}
    if el - known:
        v('definition-missing', f'elements {sorted(el - known)} are not in the code; job {j}')
    want = docs.fields(sp)
    for c, fs in want.items():
        for n in classes.get(c, []):
            if fs - fields_of(n):
                v('definition-missing', f'class {c} lacks {sorted(fs - fields_of(n))}')
    unknown = {c for c in classes if re.match(r'[STQUACHGM]\d?[a-z]\d+$', c)} - cl
    if unknown:
        v('foreign-document', f'{sorted(unknown)} are in no document of the set; job {j}')
    spaces = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'Schema':
            kw = {k.arg: k.value for k in n.keywords}
            if isinstance(kw.get('targetNamespace'), ast.Constant) and isinstance(kw.get('elements'), ast.Dict):
                spaces.setdefault(kw['targetNamespace'].value, set()).update(k.value for k in kw['elements'].keys)
    if spaces != docs.namespaces(sp):
        v('wrong-namespace', f'the code puts the elements into {spaces}, the documents into {docs.namespaces(sp)}; job {j}')
    most = 1 if sp['docs'][0]['kind'] == 'xsd' else max(1, sum(len(sp['docs'][i]['schemas']) for i in docs.reach(sp) if sp['docs'][i]['kind'] == 'wsdl'))
    often = [c for c in cl if len(classes.get(c, ())) > most]
    if often:
        v('definition-repeated', f'{sorted(often)} are defined more than {most} times; job {j}')
    if sp['docs'][0]['kind'] == 'wsdl':
        names = {t.id for n in tree.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
        ops = {docs.pyname(sp['wx']['names'][o]) + '_method' for o in range(sp['ops'] if docs.main_elems(sp) else 0)}
        if ops - names:
            v('definition-missing', f'operations {sorted(ops - names)}')
        if 'Prt_SERVICE' not in names:
            v('definition-missing', 'the service')
    if not sp['cyclic']:
        m = types.ModuleType('dst_generated')
        sys.modules['dst_generated'] = m
        try:
            exec(compile(code, 'generated', 'exec'), m.__dict__)
        except Exception as x:
            v('code-does-not-run', f'{type(x).__name__}: {x}; job {j}')
            return
        for c, fs in want.items():
            if c.startswith('T') and hasattr(m, c):
                o = getattr(m, c)()
                for f in fs:
                    if f.startswith('r'):
                        fld = next(x for x in o._meta.all if x._name == f)
                        t = fld._type if hasattr(fld, '_type') else None
                        if not isinstance(t, m.__dict__.get('xsd').ComplexType):
                            v('reference-unresolved', f'{c}.{f} has the type {t!r}')
        for i in sorted(docs.reach(sp)):
            for s in sp['docs'][i]['schemas']:
                if s.get('defs'):
                    meaning(sp, s, m, v)
        graph(sp, j, m, v)
        if sp['docs'][0]['kind'] == 'wsdl':
            services(sp, j, m, v)


def graph(sp, j, m, v):
    """The schemas of the code refer to one another as the documents do."""
    def own(s):
        n = f'{sp["key"]}{s["id"]}'
        return f'e{n}'
    got = {}
    for x in vars(m).values():
        if isinstance(x, m.xsd.Schema):
            e = [k for k in x.elements if k.startswith('e')]
            got[e[0]] = tuple(sorted(next((k for k in y.elements if k.startswith('e')), '') for y in ys) for ys in (x.imports, x.includes))
    for i in docs.reach(sp):
        for s in sp['docs'][i]['schemas']:
            near = [own({'id': b}) for b in s.get('sib', ())]
            want = tuple(sorted([own(sp['docs'][d]['schemas'][0]) for d, how, _ in s['refs'] if how == k] + (near if k == 'import' else []))
                         for k in ('import', 'include'))
            if s.get('ext') in s.get('sib', ()):
                x, base = (getattr(m, f'{c}{sp["key"]}{k}', None) for c, k in (('Xx', s['id']), ('U', s['ext'])))
                if x is None or not issubclass(x, base):
                    v('wrong-reference', f'{x} does not extend {base}; job {j}')
            if got.get(own(s)) != want:
                v('wrong-reference', f'the schema of {own(s)} has the imports and includes {got.get(own(s))}, the documents have {want}; job {j}')


def services(sp, j, m, v):
    """Every port has its service with the operations of its binding."""
    ms, wx = docs.main_elems(sp), sp['wx']
    n = f'{sp["key"]}{ms["id"]}' if ms else ''
    for port, binding, loc in (('Prt', 'B', 'x'), ('Prt2', 'B2', 'y'))[:2 if wx['more'] in ('port', 'service') else 1]:
        svc = getattr(m, port + '_SERVICE', None)
        if svc is None:
            v('definition-missing', f'the service of port {port}; job {j}')
            continue
        want = {}
        for o in range(sp['ops'] if ms else 0):
            want[wx['names'][o]] = [docs.action(sp, o, binding), docs.io(sp, o)[0] + n, docs.io(sp, o)[1] + n, [f'h{k}' for k in range(wx['hdr'][o])], [f'h{k}' for k in range(wx['ohdr'][o])]]
        got = {x.operationName: [x.soapAction, x.input, x.output, hdr(x.input_header), hdr(x.output_header)] for x in svc.methods}
        if got != want or svc.location != f'${{scheme}}://${{host}}/{loc}{sp["key"]}{wx["qs"]}' or svc.version.NAME != f'soap{sp["v"] if binding == "B" else wx["v2"]}' or len(svc.methods) != len(want):
            v('operations-differ', f'{port} at {svc.location} has {svc.version.NAME} and {got}, the documents say {want}; job {j}')
        stub = getattr(m, port + 'ServiceStub', None)
        if j['target'] == 'client':
            lacking = [x for x in want if not callable(getattr(stub, docs.pyname(x), None))]
            if lacking or stub.SERVICE is not svc or f'{stub.SCHEME}://{stub.HOST}' != ('http://host' if port == 'Prt' else wx.get('at2', 'http://host')):
                v('operations-differ', f'the stub of {port} lacks {lacking} or is for {getattr(stub, "SCHEME", None)}://{getattr(stub, "HOST", None)}; job {j}')
        else:
            for x in svc.methods:
                if not callable(x.function):
                    v('operations-differ', f'{x.operationName} of {port} has no function; job {j}')


def hdr(cls):
    return sorted(x._name for x in cls()._meta.all if re.match(r'h\d$', x._name)) if cls else []


def meaning(sp, s, m, v):
    """The classes mean what the definitions say: a valid element is read, and written again as it was; what is required is required."""
    n, rng = f'{sp["key"]}{s["id"]}', random.Random(7)
    tns, efd, defs = s['tns'], s['efd'], s['defs']
    xml = (f'<xs:schema xmlns:xs="{docs.XSD}" xmlns:t="{tns}" targetNamespace="{tns}"' + (f' elementFormDefault="{efd}"' if efd else '') + '>'
           + docs.defs_xml(defs, 'xs', 't:', n) + ''.join(f'<xs:element name="z{d["n"]}" type="t:{d["n"]}{n}"/>' for d in defs if d['k'] == 'ct') + '</xs:schema>')
    schema = etree.XMLSchema(etree.fromstring(xml.encode()))
    for d in defs:
        nm = f'{d["n"]}{n}'
        cls = getattr(m, nm[0].upper() + nm[1:])
        if d['k'] == 'st' and d.get('bad') is not None:
            x = m.__dict__['xsd']
            o = type('Bad', (x.ComplexType,), {'f': x.Element(cls)})()
            for bad in d['bad']:
                if not refuses(lambda: setattr(o, 'f', bad)):
                    v('meaning-changed', f'{nm}: {bad!r} is accepted although its facets are {d["facets"]} (or those of its base)')
        if d['k'] == 'group':
            o = cls()
            for f, t, lo, hi in d['fields']:
                x = next(x for x in o._meta.all if x._name == docs.pyname(f))
                many = hi is None or hi > 1
                if isinstance(x, m.__dict__['xsd'].ListElement) != many or bool(x._minOccurs) != bool(lo) or (many and (x._minOccurs, x._maxOccurs) != (lo, hi if hi is not None else m.__dict__['xsd'].UNBOUNDED)):
                    v('meaning-changed', f'{nm}: {f} may occur {lo} to {hi} times, the code has {type(x).__name__} with minOccurs {x._minOccurs}')
        if d['k'] not in ('ct', 'iel'):
            continue
        tag = f'z{d["n"]}' if d['k'] == 'ct' else nm
        for _ in range(3):
            e = etree.Element(f'{{{tns}}}{tag}')
            put(e, docs.sample(defs, n, d['n'], rng), tns if efd == 'qualified' else None)
            if not schema.validate(e):
                raise AssertionError(f'bad sample: {schema.error_log} {etree.tostring(e)} {xml}')
            try:
                o = cls.parse_xmlelement(e)
                got = etree.fromstring(o.xml(tag, tns, efd or 'unqualified'))
            except Exception as x:
                v('meaning-changed', f'{nm}: {etree.tostring(e)} is valid but {type(x).__name__}: {x}')
                return
            if tree(got) != tree(e):
                v('meaning-changed', f'{nm}: {etree.tostring(e)} is written as {etree.tostring(got)}')
                return
        for f, t, _ in d['attrs']:
            o = cls.parse_xmlelement(e)
            for bad in docs.INLINE_BAD[t] if isinstance(t, int) else ():
                if not refuses(lambda: (setattr(o, docs.pyname(f), bad), o.xml(tag, tns, efd or 'unqualified'))):
                    v('meaning-changed', f'{nm}: the attribute {f} takes {bad!r} although its type is {docs.INLINE[t][:2]}')
        for f, t, lo, hi in d['fields'] if d['comp'] in ('sequence', 'all') else ():
            o = cls.parse_xmlelement(e)
            many = hi is None or hi > 1
            if isinstance(t, int):
                for bad in docs.INLINE_BAD[t]:
                    if not refuses(lambda: (getattr(o, docs.pyname(f)).append(bad) if many else setattr(o, docs.pyname(f), bad), o.xml(tag, tns, efd or 'unqualified'))):
                        v('meaning-changed', f'{nm}: {f} takes {bad!r} although its type is {docs.INLINE[t][:2]}')
                o = cls.parse_xmlelement(e)
            if many and hi and not refuses(lambda: [getattr(o, docs.pyname(f)).append(getattr(cls.parse_xmlelement(e), docs.pyname(f))[0]) for _ in range(hi + 1)], len(getattr(o, docs.pyname(f)))):
                v('meaning-changed', f'{nm}: {f} takes more than {hi} items')
            if many and lo > 1:
                o = cls.parse_xmlelement(e)
                setattr(o, docs.pyname(f), list(getattr(o, docs.pyname(f)))[:1] * (lo - 1))
                if not refuses(lambda: o.xml(tag, tns, efd or 'unqualified')):
                    v('meaning-changed', f'{nm}: with {lo - 1} items of {f}, of which there are to be {lo} to {hi}, an element is written')
            o = cls.parse_xmlelement(e)
            setattr(o, docs.pyname(f), [] if many else None)
            if (many or not lo) and bool(lo) != refuses(lambda: o.xml(tag, tns, efd or 'unqualified')):
                v('meaning-changed', f'{nm}: without {f}, of which there are to be {lo} to {hi}, an element is {"written" if lo else "refused"}')


def refuses(fn, when=True):
    if not when:
        return True
    try:
        fn()
    except Exception:
        return True
    return False


def put(e, x, ns):
    if isinstance(x, str):
        e.text = x
        return
    for k, t in x[0].items():
        e.set(k, t)
    for k, t in x[1]:
        put(etree.SubElement(e, f'{{{ns}}}{k}' if ns else k), t, ns)


def tree(e):
    return e.tag, dict(e.attrib), (e.text or '') if not len(e) else '', [tree(c) for c in e]


def run(case, v):
    with Scratch() as base:
        for s in case['sets']:
            docs.write(docs.files(s, base), base)
        before = snapshot(base)
        frs = {}
        for j in case['jobs']:
            k = (j['set'], j['target'], j['wsa'])
            if k not in frs:
                frs[k] = f = solo(lambda: fresh(case, base, j))
                if 'code' not in f:
                    v('generation-failed', f'without any fault: {f}; job {j}')
                else:
                    solo_judge(case['sets'][j['set']], j, f['code'], v)
        r1 = Run(case, base, case['jobs']).run()
        r2 = Run(case, base, case['jobs'], faults=False, sched={'mode': 'rand', 'seed': 1, 'p': 0.0}).run(together=False, trace=False)
        ok = harmed = 0
        for r, ph in ((r1, 'first'), (r2, 'again')):
            if r.stuck:
                v('stuck', f'{ph}: {r.stuck}')
            if r.sim.overrun:
                v('no-progress', f'{ph}: generation does not terminate')
            for j in case['jobs']:
                got = r.results.get(j['id'])
                if got is None:
                    continue
                f = frs[(j['set'], j['target'], j['wsa'])]
                if r.harmed(j):
                    harmed += 1
                    if 'code' in got:
                        v('code-from-incomplete-documents', f'{ph}: {j} gave {len(got["code"])} characters of code')
                elif 'code' not in got:
                    if 'code' in f:
                        v('undisturbed-generation-failed', f'{ph}: {got}; job {j}')
                elif 'code' in f and got['code'] != f['code']:
                    v('differs-from-fresh', f'{ph}: job {j}: {diff(f["code"], got["code"])}')
                else:
                    ok += 1
        if snapshot(base) != before:
            v('documents-modified', f'{[p for p in set(before) | set(snapshot(base)) if before.get(p) != snapshot(base).get(p)]}')
    fired = dict(r1.net.fired)
    for k, n in r1.fs.fired.items():
        fired[k] = fired.get(k, 0) + n
    return {'sig': r1.sim.sig, 'simt': 0, 'steps': r1.sim.steps, 'npre': r1.sim.npreempt, 'faults': fired, 'record': r1.sim.record,
            'log': [list(x) for x in r1.sim.log][:400], 'nontrivial': bool(ok and (fired or len(case['jobs']) > 1)),
            'key': f'{r1.sim.sig}:{case["seed"]}',
            'probes': {'generations_compared': ok, 'generations_harmed': harmed, 'documents': sum(len(s['docs']) for s in case['sets']),
                       'cyclic_sets': sum(1 for s in case['sets'] if s['cyclic'])},
            'summary': f'{len(case["jobs"])} generations, {harmed} harmed, {ok} compared; faults {fired}'}


def solo_judge(sp, j, code, v):
    class L(list):
        def __call__(self, k, d=''):
            self.append([k, d])

    def go():
        x = L()
        judge(sp, j, code, x)
        return list(x)
    for k, d in solo(go):
        v(k, d)


def diff(a, b):
    import difflib
    return ' | '.join(list(difflib.unified_diff(a.splitlines(), b.splitlines(), lineterm='', n=0))[2:14])[:900]


def snapshot(base):
    out = {}
    for d, _, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f)
            with builtins.open(p, 'rb') as h:
                out[p] = h.read()
    return out


def reductions(case):
    import copy
    for j in range(len(case['jobs'])):
        for k in ('disk', 'net'):
            if k in case['jobs'][j]:
                c = copy.deepcopy(case)
                del c['jobs'][j][k]
                yield c
    for i, s in enumerate(case['sets']):
        for d in s['docs']:
            for e in range(len(d['imports'])):
                c = copy.deepcopy(case)
                del c['sets'][i]['docs'][d['id']]['imports'][e]
                c['sets'][i]['cyclic'] = docs.cyclic(c['sets'][i]['docs'])
                if consistent(c['sets'][i]):
                    yield c
            for si, sc in enumerate(d['schemas']):
                for e in range(len(sc.get('sib', ()))):
                    c = copy.deepcopy(case)
                    del c['sets'][i]['docs'][d['id']]['schemas'][si]['sib'][e]
                    yield c
                for e in range(len(sc['refs'])):
                    c = copy.deepcopy(case)
                    del c['sets'][i]['docs'][d['id']]['schemas'][si]['refs'][e]
                    c['sets'][i]['cyclic'] = docs.cyclic(c['sets'][i]['docs'])
                    if consistent(c['sets'][i]):
                        yield c


def consistent(sp):
    r = docs.reach(sp)
    for d in sp['docs']:
        for s in d['schemas']:
            for j, how, _ in s['refs']:
                if sp['docs'][j]['schemas'][0].get('cham') and how != 'include':
                    return False
    return all(x in r for x in [sp.get('abstract', 0), sp.get('concrete', 0), sp.get('binding', 0)] + [y for x in sp.get('messages', ()) for y in x])
