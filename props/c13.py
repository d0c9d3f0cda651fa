"""C13: generated code and descriptions are reproducible."""
import json
import os
import re
import sys
import time

from dst import docs, harness, spec, world
from dst.fs import FS, HARMLESS
from dst.harness import solo
from dst.net import Net
from dst.sched import Sim
from dst.seams import CLK, STATE
from props import c12
from props.c12 import CODEGEN, DISK, HARM, NETK, Scratch, diff, mask

RULE = ('A case is 1-2 document sets and 0-2 services, and 1-3 rounds of 1-4 generations running concurrently under a seeded schedule in '
        'one process: wsdl2py and xsd2py from documents on a disk and a web server, py2wsdl and py2xsd from live services and from '
        'generated modules, through the functions or the tools\' main; besides them tasks that use the services\' types. Some fail on a '
        'faulty disk or network or are aborted at any line; between rounds documents change at the same paths, and the working directory '
        'with its misleading files. Every undisturbed output is compared with the one of a fresh process with another clock, time zone '
        'and (in a part of the cases) another hash seed. Non-trivial: an output was compared after or beside another generation.')
COMPONENTS = {'real': ['soapfish wsdl2py, xsd2py, py2wsdl, py2xsd, utils, xsdspec, wsdl11/12, xsd, templates', 'jinja2', 'lxml/libxml2',
                       'requests + urllib3 + http.client'],
              'stub': ['TCP and the web server of the documents', 'file objects (real files of a scratch directory behind a failing raw layer)',
                       'thread scheduler (baton, seeded)', 'clocks, time zone, randomness']}
QUICK, THOROUGH, QUICK_S, THOROUGH_S = 100000, 10000000, 35, 600
LISTS = ('rounds',)
SIMPLER = {'clock': 0, 'tz': 'UTC', 'litter': False}
ASSUMPTIONS = ['The line "# Note: Generated by ... at ..." is the generation timestamp; nothing else is masked.',
               'Templates are compiled once per text (jinja2\'s compiler is memoised).']

ZONES = ('UTC', 'Pacific/Kiritimati', 'America/New_York', 'XXX+11:30', 'Asia/Kolkata')
ABORT = ('KeyboardInterrupt', 'MemoryError', 'WorkerTimeout')


def gen(rng, tier):
    sets = [docs.gen(rng, key=chr(97 + i), maxdocs=5) for i in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.4:
        sets.append(docs.gen(rng, key='m', root='wsdl', maxdocs=1, place='disk', cyc=False))
    svcs = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        g = spec.Gen(rng, imports=rng.choice([0, 0, 1, 2]))
        svcs.append(g.service())
    rounds, n = [], 0
    for r in range(rng.choice([1, 2, 2, 3])):
        jobs = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            j = gen_job(rng, sets, svcs)
            j['id'] = n
            n += 1
            jobs.append(j)
        rounds.append({'jobs': jobs, 'bump': [k for k in range(len(sets)) if r and rng.random() < 0.5], 'chdir': rng.random() < 0.3})
    c = {'seed': rng.randrange(1 << 30), 'sched': world.gen_sched(rng), 'sets': sets, 'svcs': svcs, 'rounds': rounds,
         'segment': rng.choice([65536, 65536, 512]), 'deep': rng.random() < 0.1, 'tz': rng.choice(ZONES), 'litter': rng.random() < 0.6,
         'clock': rng.choice([0, 0, 86400 * 3 + 5, -1.6e9, 8e8, 3e9])}
    if rng.random() < 0.5:
        c['other'] = {'hashseed': rng.choice(PEERS), 'tz': rng.choice(ZONES)}
    return c


def gen_job(rng, sets, svcs):
    kinds = ['doc'] * 4 + (['svc'] * 3 + ['use'] if svcs else []) + (['mod'] * 3 if any(modular(s) for s in sets) else [])
    kind = rng.choice(kinds)
    j = {'kind': kind, 'wait': rng.choice([0, 0, 0.001])}
    if kind == 'doc':
        k = rng.randrange(len(sets))
        j.update(set=k, target=rng.choice(['client', 'server']), wsa=rng.random() < 0.15, via=rng.choice(['api', 'api', 'main']))
        if rng.random() < 0.25:
            sp = sets[k]
            d = rng.choice(sorted(docs.reach(sp)))
            if sp['docs'][d]['place'] == 'disk':
                j['disk'] = [d, {'kind': rng.choice(DISK), 'at': rng.randrange(100000)}]
            else:
                j['net'] = [rng.randrange(max(1, sum(1 for x in docs.reach(sp) if sp['docs'][x]['place'] == 'web'))), world.gen_fault(rng, NETK)]
    elif kind == 'mod':
        j.update(set=rng.choice([k for k, s in enumerate(sets) if modular(s)]), what=rng.choice(['wsdl', 'xsd']))
        if rng.random() < 0.2:
            j['bad'] = True         # the module defines types, but neither service nor schema
    else:
        j.update(svc=rng.randrange(len(svcs)), what=rng.choice(['wsdl', 'xsd']), n=rng.randrange(8))
    if rng.random() < 0.12:
        j['abort'] = [rng.randint(1, rng.choice([50, 500, 4000])), rng.choice(ABORT)]
    return j


def modular(s):
    return s['docs'][0]['kind'] == 'wsdl' and not s['cyclic'] and docs.main_elems(s) is not None and sum(len(s['docs'][i]['schemas']) for i in docs.reach(s)) == 1


def key_of(j, revs):
    if j['kind'] == 'doc':
        return json.dumps(['doc', j['set'], j['target'], j['wsa'], revs[j['set']]])
    if j['kind'] == 'mod':
        return json.dumps(['mod', j['set'], j['what'], revs[j['set']], bool(j.get('bad'))])
    return json.dumps(['svc', j['svc'], j['what'], j['n'] if j['what'] == 'xsd' else 0])


# ------------------------------------------------------------------ doing a job
def do_doc(sp, j, base, out):
    from soapfish import utils, wsdl2py, xsd2py
    path = docs.root_path(sp, base)
    wsdl = sp['docs'][0]['kind'] == 'wsdl'
    if j.get('via') == 'main':
        if wsdl:
            wsdl2py.main(['-c' if j['target'] == 'client' else '-s'] + (['-w'] if j['wsa'] else []) + [path, out])
        else:
            xsd2py.main([path, out])
        return mask(read(out))
    xml = utils.open_document(path)
    cwd = docs.cwd_of(sp, base)
    if wsdl:
        code = wsdl2py.generate_code_from_wsdl(xml, j['target'], use_wsa=j['wsa'], cwd=cwd)
    else:
        code = xsd2py.generate_code_from_xsd(xml, cwd=cwd)
    return mask(code.decode('utf-8').strip())


def read(p):
    from dst.fs import OPEN
    with OPEN(p, 'rb') as f:
        return f.read().decode('utf-8')


def do_svc(b, j):
    from lxml import etree
    from soapfish import py2wsdl, py2xsd
    if j['what'] == 'wsdl':
        return etree.tostring(py2wsdl.generate_wsdl(b.service)).decode()
    ids = sorted(b.schemas)
    return etree.tostring(py2xsd.generate_xsd(b.schemas[ids[j['n'] % len(ids)]])).decode()


def do_use(b, svc, j, seed):
    """The types are in use: values are built, rendered, validated and parsed."""
    import random
    from lxml import etree
    from soapfish import py2xsd
    rng = random.Random(seed)
    m = svc['methods'][j['n'] % len(svc['methods'])]
    sch, e = spec.find_elem(svc, m['in'])
    if e.get('simple'):
        return
    g = spec.Gen(rng)
    val = g.value(svc, sch, e['type'])
    obj = spec.to_obj(b, sch, e['type'], val)
    x = obj.xml(m['in'], schema=b.schemas[sch['id']], namespace=sch['ns'])
    type(obj).parsexml(x)
    py2xsd.schema_validator(b.service.schemas)
    etree.fromstring(x)


def do_mod(path, j, out):
    from soapfish import py2wsdl, py2xsd
    (py2wsdl if j['what'] == 'wsdl' else py2xsd).main([path, out])
    return read(out)


def modpath(base, j):
    return f'{base}/mods/{"bad" if j.get("bad") else "service"}{j["set"]}.py'


def put_module(base, k, source):
    os.makedirs(base + '/mods', exist_ok=True)
    for n, text in (('service', source), ('bad', re.sub(r'(?m)^(SERVICE|Schema) = .*$', '', source))):
        p = f'{base}/mods/{n}{k}.py'
        with open(p, 'w') as f:
            f.write(text)
        os.utime(p, (CLK.EPOCH, CLK.EPOCH))      # all edits within one second


def module_source(code):
    m = re.search(r'(?m)^(\w+_SERVICE) = ', code)
    s = re.search(r'(?m)^(Schema_\w+) = ', code)
    return code + f'\n\nSERVICE = {m.group(1)}\nSchema = {s.group(1)}\n'


def outcome(fn):
    try:
        return {'out': fn()}
    except Exception as x:
        return {'exc': type(x).__name__, 'msg': str(x)[:300]}


class Run(c12.Run):
    """One process: rounds of concurrent jobs."""

    def __init__(self, case, base):
        self.case, self.base = case, base
        self.sets = [dict(s) for s in case['sets']]
        self.sim = Sim(case['sched'], max_steps=5_000_000)
        self.jobs = [j for r in case['rounds'] for j in r['jobs']]
        self.by = {j['id']: j for j in self.jobs}
        self.faults = True
        self.net = Net(self.sim, self.plan, segment=case.get('segment', 65536))
        self.fs = FS(base, {}, self.sim)
        self.files = {}
        self.results = {}
        self.revs = [0] * len(self.sets)
        self.tasks = {}
        self.mods = {}

    def place(self):
        """The current revision of the documents, and a module per set."""
        new = {}
        for s, r in zip(self.sets, self.revs):
            s['rev'] = r
            new.update(docs.files(s, self.base))
        self.files.clear()
        self.files.update(new)
        docs.write(new, self.base)
        for k, s in enumerate(self.sets):
            if f'{k}:{self.revs[k]}' in self.mods:
                put_module(self.base, k, self.mods[f'{k}:{self.revs[k]}'])

    def job(self, j):
        t = self.sim.current()
        t.call, t.attempt = j['id'], 0
        if j.get('wait'):
            self.sim.sleep(j['wait'])
        out = f'{self.base}/out{j["id"]}'
        if j['kind'] == 'doc':
            r = outcome(lambda: do_doc(self.sets[j['set']], j, self.base, out))
        elif j['kind'] == 'mod':
            r = outcome(lambda: do_mod(modpath(self.base, j), j, out))
        elif j['kind'] == 'svc':
            r = outcome(lambda: do_svc(self.built[j['svc']], j))
        else:
            r = outcome(lambda: do_use(self.built[j['svc']], self.case['svcs'][j['svc']], j, j['id']))
        self.sim.retrace()
        self.results[j['id']] = r
        self.sim.ev('generated', j['id'], r.get('exc') or (len(r['out']) if r['out'] else 0))

    def run(self, mods):
        case, base = self.case, self.base
        self.sim.only = None if case.get('deep') else CODEGEN
        self.mods = mods
        self.built = [spec.build(s) for s in case['svcs']]
        STATE.net = self.net
        docs.serve(self.net, self.sim, self.files, case['sets'][0]['framing'])
        self.keys = {}
        with self.fs:
            for r in case['rounds']:
                for k in r['bump']:
                    self.revs[k] += 1
                self.place()
                if r.get('chdir'):
                    os.makedirs(base + '/elsewhere', exist_ok=True)
                    os.chdir(base + '/elsewhere')
                self.fs.plan.clear()
                for j in r['jobs']:
                    self.keys[j['id']] = key_of(j, self.revs)
                    if 'disk' in j:
                        d, f = j['disk']
                        sp = self.sets[j['set']]
                        p = docs.path_of(sp['docs'][d], base, sp)
                        f = dict(f)
                        if f['kind'] in ('cut', 'eio'):
                            f['at'] %= len(self.files[p].rstrip()) - 1
                        self.fs.plan.setdefault('r:' + p, []).append(f)
                for j in r['jobs']:
                    self.tasks[j['id']] = self.sim.spawn(f'gen{j["id"]}', lambda j=j: self.job(j), abort=j.get('abort'))
                self.stuck = self.sim.run()
                if self.stuck or self.sim.overrun:
                    break
        STATE.net = None
        for t in self.sim.tasks:
            if t.exc is not None and t.aborted is None and type(t.exc).__name__ != 'StepLimit':
                raise t.exc
        return self

    def disturbed(self, j):
        return self.tasks[j['id']].aborted is not None or self.harmed(j)


def alone(case, base, j, revs, mods):
    """What a process that does nothing else makes of it; the documents of these revisions are in place."""
    if j['kind'] == 'svc':
        return outcome(lambda: do_svc(spec.build(case['svcs'][j['svc']]), j))
    sets = [dict(s, rev=r) for s, r in zip(case['sets'], revs)]
    if j['kind'] == 'mod':
        return outcome(lambda: do_mod(modpath(base, j), j, base + '/alone.out'))
    files = {}
    for s in sets:
        files.update(docs.files(s, base))
    sim = Sim()
    net = Net(sim)
    STATE.net = net
    docs.serve(net, sim, files, 'length')
    res = {}

    def go():
        res['r'] = outcome(lambda: do_doc(sets[j['set']], dict(j, via='api'), base, base + '/alone.out'))
    sim.spawn('alone', go, trace=False)
    stuck = sim.run()
    STATE.net = None
    return res.get('r') or {'exc': 'stuck', 'msg': str(stuck)}


PEERS = (4294967294,)         # the workers themselves have eight others


def peer(d):
    """Runs in a process of its own with another hash seed, time zone and working directory."""
    from dst import seams
    os.environ['TZ'] = d['tz']
    time.tzset()
    os.chdir(d['base'])
    seams.reseed(99)
    return [alone(d['case'], d['base'], j, d['revs'], None) for j in d['jobs']]


def other(case, base, jobs, revs):
    return harness.ask_peer(case['other']['hashseed'], {'case': case, 'base': base, 'jobs': jobs, 'revs': revs, 'tz': case['other']['tz']})


def litter(case, base):
    """Files in the working directory that a wrong base directory or search path would find."""
    names = {'xsd.jinja2', 'wsdl.jinja2', 'lib.jinja2', 'templates/xsd.jinja2', 'templates/wsdl.jinja2', 'templates/lib.jinja2',
             'soapfish/templates/xsd.jinja2', 'soapfish/templates/lib.jinja2'}
    for s in case['sets']:
        for d in s['docs']:
            rel = '/'.join(list(d['dir']) + [d['name']])
            names |= {rel, d['name']}
            for _j, sp in list(d['imports']) + [(x[0], x[2]) for t in d['schemas'] for x in t['refs']]:
                if sp != 'abs' and s['docs'][_j]['place'] == d['place']:
                    names.add(docs.spell(d, s['docs'][_j], sp, base, s).replace('../', ''))
    for cwd in ('cwd', 'elsewhere'):
        for n in sorted(names):
            p = f'{base}/{cwd}/{n}'
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.isdir(p):
                with open(p, 'w') as f:
                    f.write('DECOY {{ nothing }}' if n.endswith('2') else docs.decoy_xml('wsdl' if n.endswith('wsdl') else 'xsd', 'Cwd'))


def run(case, v):
    with Scratch('c13') as base:
        # the reference: each output alone in a fresh process with a plain environment
        os.environ['TZ'] = 'UTC'
        time.tzset()
        ref, mods, todo = {}, {}, []
        revs = [0] * len(case['sets'])
        for r in case['rounds']:
            for k in r['bump']:
                revs[k] += 1
            for j in r['jobs']:
                k = key_of(j, revs)
                if j['kind'] != 'use' and k not in ref:
                    ref[k] = None
                    todo.append((k, j, list(revs)))
        for k, j, rv in todo:
            files = {}
            for s, n in zip(case['sets'], rv):
                files.update(docs.files(dict(s, rev=n), base))
            docs.write(files, base)
            if j['kind'] == 'mod':
                mk = f'{j["set"]}:{rv[j["set"]]}'
                if mk not in mods:
                    g = solo(lambda: alone(case, base, {'kind': 'doc', 'set': j['set'], 'target': 'server', 'wsa': False}, rv, mods))
                    if 'out' not in g:
                        v('generation-failed', f'without any fault: {g}; job {j}')
                        return {}
                    mods[mk] = module_source(g['out'])
                put_module(base, j['set'], mods[mk])
            ref[k] = solo(lambda: alone(case, base, j, rv, mods))
            if 'out' not in ref[k] and not j.get('bad'):
                v('generation-failed', f'without any fault: {ref[k]}; job {j}')
        if v:
            return {}
        # another process: other hash seed and time zone, the documents of the last revision
        if case.get('other'):
            jobs = []
            for k, j, rv in todo:
                if all(rv[x] == revs[x] for x in ([j['set']] if 'set' in j else [])) and len(jobs) < 5:
                    jobs.append((k, j))
            if jobs:
                files = {}
                for s, n in zip(case['sets'], revs):
                    files.update(docs.files(dict(s, rev=n), base))
                docs.write(files, base)
                for k, j in jobs:
                    if j['kind'] == 'mod':
                        put_module(base, j['set'], mods[f'{j["set"]}:{revs[j["set"]]}'])
                for (k, j), got in zip(jobs, other(case, base, [j for _, j in jobs], revs)):
                    if got != ref[k] and not j.get('bad'):
                        v('differs-in-another-process', f'job {j}, {case["other"]}: {differ(ref[k], got)}')
        if case.get('litter'):
            litter(case, base)
        os.environ['TZ'] = case['tz']
        time.tzset()
        sys.dont_write_bytecode = False         # as shipped: what is imported may leave a __pycache__ behind
        CLK.base = CLK.EPOCH + case['clock']
        try:
            r = Run(case, base).run(mods)
        finally:
            sys.dont_write_bytecode = True
        compared = harmed = 0
        if r.stuck:
            v('stuck', r.stuck)
        if r.sim.overrun:
            v('no-progress', 'generation does not terminate')
        for j in r.jobs:
            got = r.results.get(j['id'])
            if got is None or j['kind'] == 'use':
                continue
            if r.disturbed(j):
                harmed += 1
                continue
            want = ref[r.keys[j['id']]]
            if got != want and not (j.get('bad') and 'exc' in got and 'exc' in want):
                v('differs', f'job {j}: {differ(want, got)}')
            compared += 1
    fired = dict(r.net.fired)
    for k, n in r.fs.fired.items():
        fired[k] = fired.get(k, 0) + n
    if r.sim.aborts_fired:
        fired['abort'] = r.sim.aborts_fired
    for k, on in (('process_restart_other_hashseed', case.get('other')), ('clock_jump', case['clock']), ('time_zone', case['tz'] != 'UTC'),
                  ('misleading_files', case.get('litter')), ('documents_changed', any(x['bump'] for x in case['rounds']))):
        if on:
            fired[k] = fired.get(k, 0) + 1
    assert HARM and HARMLESS
    return {'sig': r.sim.sig, 'simt': CLK.t, 'steps': r.sim.steps, 'npre': r.sim.npreempt, 'faults': fired, 'record': r.sim.record,
            'log': [list(x) for x in r.sim.log][:400], 'nontrivial': bool(compared and len(r.jobs) > 1), 'key': f'{r.sim.sig}:{case["seed"]}',
            'probes': {'outputs_compared': compared, 'generations_harmed': harmed, 'rounds': len(case['rounds']),
                       'other_process': 1 if case.get('other') else 0},
            'summary': f'{len(r.jobs)} jobs in {len(case["rounds"])} rounds, {compared} compared, {harmed} disturbed; faults {fired}'}


def differ(a, b):
    if 'out' in a and 'out' in b:
        return diff(a['out'].replace('><', '>\n<'), b['out'].replace('><', '>\n<'))
    return f'{str(b)[:500]} instead of {str(a)[:300]}'


def reductions(case):
    import copy
    for ri, r in enumerate(case['rounds']):
        for ji in range(len(r['jobs'])):
            c = copy.deepcopy(case)
            del c['rounds'][ri]['jobs'][ji]
            yield c
        for ji, j in enumerate(r['jobs']):
            for k in ('disk', 'net', 'abort'):
                if k in j:
                    c = copy.deepcopy(case)
                    del c['rounds'][ri]['jobs'][ji][k]
                    yield c
        if r['bump'] or r['chdir']:
            c = copy.deepcopy(case)
            c['rounds'][ri].update(bump=[], chdir=False)
            yield c
    if case.get('other'):
        c = copy.deepcopy(case)
        c.pop('other')
        yield c
    for c in c12.reductions({'jobs': [], 'sets': case['sets']}):
        yield dict(copy.deepcopy(case), sets=c['sets'])
