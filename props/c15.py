"""C15: the command line tools exit 0 only when their complete output was stored."""
import gc
import io
import os
import runpy
import sys
import traceback

from dst import docs, harness, spec, world
from dst.fs import FS, HARMLESS, Raw
from dst.harness import solo
from dst.net import Net
from dst.sched import Sim, StepLimit, Stopped
from dst.seams import STATE
from props import c12, c13
from props.c12 import DISK, HARM, NETK, Scratch, mask, snapshot

RULE = ('A case is 1-6 runs of the tools wsdl2py, xsd2py, py2wsdl and py2xsd, each as a process of its own (run as a module or through '
        'its console entry point), one after another on the same simulated disk: input from files, a web server or standard input, '
        'output to a new or existing file or standard output (of several encodings, or closed), with failing, cut and slow reads of '
        'any of the documents, network faults, outputs that cannot be opened, fill up, break, lose their data on close or take a few bytes at a '
        'time, and aborts at any line. Judged by exit status, stored bytes, error output and the inputs afterwards; the bytes expected '
        'come from the library functions. Non-trivial: a run was disturbed and one succeeded.')
COMPONENTS = {'real': ['soapfish wsdl2py, xsd2py, py2wsdl, py2xsd as __main__, argparse, utils, xsdspec, wsdl11/12, templates', 'jinja2',
                       'lxml/libxml2', 'requests + urllib3 + http.client', 'io.BufferedWriter and TextIOWrapper'],
              'stub': ['TCP and the web server of the documents', 'raw files, standard input, output and error',
                       'interpreter start and exit (flush of the standard streams, status 120, finalisers)', 'clocks, randomness']}
QUICK, THOROUGH, QUICK_S, THOROUGH_S = 100000, 10000000, 30, 600
LISTS = ('runs',)
SIMPLER = {}
ASSUMPTIONS = ['An output named as one of the inputs is out of scope (argparse truncates it first).',
               'A file whose close fails has lost its last block, as on a network file system.']

WKINDS = ('weacces', 'wenoent', 'enospc', 'enospc', 'weio', 'epipe', 'wshort', 'wshort', 'close', 'close')
SKINDS = ('enospc', 'enospc', 'weio', 'epipe', 'epipe', 'wshort')
ENC = ('utf-8', 'utf-8', 'ascii', 'latin-1', 'utf-16')


def gen(rng, tier):
    sets = [docs.gen(rng, key='a', maxdocs=rng.choice([1, 2, 4]))]
    if rng.random() < 0.5:
        sets.append(docs.gen(rng, key='b', root='wsdl', maxdocs=1, place='disk', cyc=False))
    for s in sets:
        s['uni'] = rng.random() < 0.5
        if s['docs'][0]['place'] == 'disk' and rng.random() < 0.12:
            s['pad'] = rng.choice([600, 4200, 70000])        # lines; 17 bytes each
        elif rng.random() < 0.1:
            s['bulk'] = rng.choice([500, 4000, 12000])       # the output is long as well
    runs = [gen_run(rng, sets, i) for i in range(rng.choice([1, 2, 3, 4, 6]))]
    return {'seed': rng.randrange(1 << 30), 'sched': {'mode': 'rand', 'seed': 0, 'p': 0.0}, 'sets': sets, 'runs': runs, 'segment': rng.choice([65536, 512])}


def gen_run(rng, sets, i):
    k = rng.randrange(len(sets))
    sp = sets[k]
    wsdl = sp['docs'][0]['kind'] == 'wsdl'
    tool = 'wsdl2py' if wsdl else 'xsd2py'
    if c13.modular(sp) and rng.random() < 0.5:
        tool = rng.choice(['py2wsdl', 'py2xsd'])
    r = {'id': i, 'set': k, 'tool': tool, 'entry': rng.choice(['module', 'module', 'script']),
         'target': rng.choice(['-c', '-s', '--client', '--server']), 'wsa': rng.random() < 0.15,
         'out': rng.choice(['file', 'file', 'file', 'stdout', 'stdout', '-']), 'enc': rng.choice(ENC), 'old': rng.choice([None, 'short', 'long']),
         'name': rng.choice(['out', 'out', 'other'])}
    if tool.startswith('py'):
        r['in'] = 'path'
    else:
        r['in'] = 'path'
        if sp['docs'][0]['place'] == 'disk' and rng.random() < 0.25 and not any(docs.succ(d) for d in sp['docs']):
            r['in'] = 'stdin'
    z = rng.random()
    if z < 0.35:
        if r['out'] == 'file':
            r['wfault'] = {'kind': rng.choice(WKINDS), 'at': rng.choice([0, 1, rng.randrange(100000), rng.randrange(100000)])}
        else:
            r['wfault'] = {'kind': rng.choice(SKINDS), 'at': rng.choice([0, 1, rng.randrange(100000), rng.randrange(100000)])}
            if rng.random() < 0.06:
                r['wfault'] = {'kind': 'closed'}
    elif z < 0.6:
        if tool.startswith('py') or r['in'] == 'stdin':
            r['rfault'] = {'kind': rng.choice(DISK if r['in'] != 'stdin' else ('eio', 'cut', 'short')), 'at': rng.randrange(100000)}
        else:
            d = rng.choice(sorted(docs.reach(sp)))
            if sp['docs'][d]['place'] == 'disk':
                r['disk'] = [d, {'kind': rng.choice(DISK), 'at': rng.randrange(100000)}]
            else:
                r['net'] = [rng.randrange(max(1, sum(1 for x in docs.reach(sp) if sp['docs'][x]['place'] == 'web'))), world.gen_fault(rng, NETK)]
    elif z < 0.75:
        r['abort'] = [rng.randint(1, rng.choice([30, 300, 3000])), rng.choice(['KeyboardInterrupt', 'MemoryError', 'SystemExit', 'WorkerTimeout'])]
        if r['abort'][1] == 'SystemExit':
            r['abort'][1] = 'KeyboardInterrupt'
    elif z < 0.78:
        r['usage'] = rng.choice(['none', 'unknown', 'nodir'])
    return r


class Std(Raw):
    """The raw end of a standard stream; what was written is in a file of the scratch directory."""

    def fileno(self):
        raise io.UnsupportedOperation('fileno')


class Kept(io.BytesIO):
    """The terminal: what was written stays there when the process closes its end."""

    def close(self):
        pass


class Process:
    """One run of a tool."""

    def __init__(self, case, r, base, mods, faults=True):
        self.case, self.r, self.base, self.mods, self.faults = case, r, base, mods, faults
        self.sp = case['sets'][r['set']]
        self.sim = Sim(case['sched'], max_steps=3_000_000)
        self.by = {r['id']: r}
        self.net = Net(self.sim, self.plan, segment=case.get('segment', 65536))
        self.files = {}
        for s in case['sets']:
            self.files.update(docs.files(s, base))
        plan = {}
        self.outpath = f'{base}/out/{r["name"]}'
        self.modpath = f'{base}/mods/service{r["set"]}.py'
        if faults:
            if 'disk' in r:
                d, f = r['disk']
                p = docs.path_of(self.sp['docs'][d], base, self.sp)
                plan['r:' + p] = [self.sized(f, self.files[p])]
            if 'rfault' in r and r['in'] == 'path':
                with open(self.modpath, 'rb') as f:
                    plan['r:' + self.modpath] = [self.sized(r['rfault'], f.read())]
            if 'wfault' in r and r['out'] == 'file':
                plan['w:' + self.outpath] = [dict(r['wfault'])]
        self.fs = FS(base, plan, self.sim)
        self.status = None
        self.stderr = ''
        self.stored = None

    @staticmethod
    def sized(f, data):
        f = dict(f)
        if f['kind'] in ('cut', 'eio'):
            f['at'] %= max(1, len(data.rstrip()) - 1)
        return f

    def plan(self, call, attempt, host):
        if not self.faults or 'net' not in self.r or call != self.r['id'] or attempt != self.r['net'][0]:
            return None
        return self.r['net'][1]

    def argv(self):
        r = self.r
        a = [f'/usr/bin/{r["tool"]}']
        if r['tool'] == 'wsdl2py':
            a.append(r['target'])
            if r['wsa']:
                a.append('-w')
        if r['tool'].startswith('py2'):
            a.append(self.modpath)
        elif r['in'] == 'stdin':
            a.append('-')
        else:
            a.append(docs.root_path(self.sp, self.base))
        if r['out'] == 'file':
            a.append(self.outpath if not (self.faults and r.get('usage') == 'nodir') else self.base + '/no/such/dir/out')
        elif r['out'] == '-':
            a.append('-')
        if self.faults and r.get('usage') == 'none':
            a = a[:1]
        if self.faults and r.get('usage') == 'unknown':
            a.append('--no-such-option')
        return a

    def go(self):
        """The life of the process, from after its start to its exit status."""
        t = self.sim.current()
        t.call, t.attempt = self.r['id'], 0
        r = self.r
        stdin_f = {}
        data = b''
        if r['in'] == 'stdin':
            data = self.files[docs.root_path(self.sp, self.base)]
            if self.faults and 'rfault' in r:
                stdin_f = self.sized(r['rfault'], data)
        sys.stdin = io.TextIOWrapper(io.BufferedReader(Std(self.fs, io.BytesIO(data), stdin_f, False)), encoding=r['enc'])
        wf = dict(r['wfault']) if self.faults and 'wfault' in r and r['out'] != 'file' else {}
        self.out = io.FileIO(self.base + '/stdout', 'w')
        if wf.get('kind') == 'closed':
            self.fs.fire(wf)
            sys.stdout = None
        else:
            sys.stdout = io.TextIOWrapper(io.BufferedWriter(Std(self.fs, self.out, wf, True)), encoding=r['enc'])
        err = Kept()
        sys.stderr = io.TextIOWrapper(err, encoding='utf-8', errors='backslashreplace', write_through=True)
        sys.argv = self.argv()
        os.chdir(docs.cwd_of(self.sp, self.base) if r['in'] == 'stdin' else self.base + '/cwd')
        status = None
        try:
            try:
                if r['entry'] == 'module':
                    runpy.run_module('soapfish.' + r['tool'], run_name='__main__', alter_sys=True)
                else:
                    import importlib
                    sys.exit(importlib.import_module('soapfish.' + r['tool']).main())
                status = 0
            except SystemExit as x:
                if x.code is None:
                    status = 0
                elif isinstance(x.code, int):
                    status = x.code & 0xff
                else:
                    status = 1
                    self.say(f'{x.code}\n')
            except (Stopped, StepLimit):
                raise
            except BaseException as x:  # noqa: B902 - this is the interpreter's top level
                self.say(''.join(traceback.format_exception(x)))
                status = 130 if isinstance(x, KeyboardInterrupt) else 1
                x.__traceback__ = None
                del x
            sys.settrace(None)
            # interpreter exit: flush the standard streams, then finalise what is left
            if sys.stdout is not None:
                try:
                    sys.stdout.flush()
                except Exception:
                    status = 120
            gc.collect()
            so, sys.stdout = sys.stdout, None
            try:
                del so
            finally:
                gc.collect()
        finally:
            self.status = status
            self.stderr = err.getvalue().decode('utf-8')
        self.sim.ev('exit', r['tool'], status)

    def say(self, text):
        """What the interpreter itself prints at the top level: nothing at all when the stream is gone."""
        try:
            sys.stderr.write(text)
        except (AttributeError, ValueError):
            pass

    def run(self):
        STATE.net = self.net
        docs.serve(self.net, self.sim, self.files, self.sp['framing'])
        os.makedirs(self.base + '/out', exist_ok=True)
        if self.r['out'] == 'file' and self.r['old']:
            with open(self.outpath, 'wb') as f:
                f.write(b'# old\n' * (1 if self.r['old'] == 'short' else 20000))
        sys.unraisablehook = lambda *a: None
        with self.fs:
            self.task = self.sim.spawn('tool', self.go, abort=self.r.get('abort') if self.faults else None,
                                       trace=bool(self.faults and 'abort' in self.r))
            self.stuck = self.sim.run()
        STATE.net = None
        e = self.task.exc
        if e is not None and not isinstance(e, StepLimit):
            raise e
        p = self.outpath if self.r['out'] == 'file' else self.base + '/stdout'
        self.stored = read(p)
        return self

    def result(self):
        return {'status': self.status, 'stored': self.stored, 'stderr': self.stderr, 'stuck': self.stuck, 'overrun': self.sim.overrun,
                'harmed': self.harmed(), 'aborted': self.task.aborted, 'fired': {**self.net.fired, **self.fs.fired},
                'log': [list(x) for x in self.sim.log][:100], 'steps': self.sim.steps, 'kinds': [k for _, k in self.fs.byname]}

    def harmed(self):
        if any(k not in HARMLESS for _, k in self.fs.byname):
            return True
        return any(c.fault.get('_fired') and c.fault.get('kind') in HARM for c in self.net.conns) or bool(self.faults and self.r.get('usage'))


def read(p):
    if not os.path.exists(p):
        return None
    with open(p, 'rb') as f:
        return mask(f.read().decode('utf-8', 'backslashreplace'))


def api(case, r, base):
    """What the library's functions make of the same input."""
    if r['tool'].startswith('py2'):
        def go():
            from importlib.machinery import SourceFileLoader
            from lxml import etree
            from soapfish import py2wsdl, py2xsd
            m = SourceFileLoader('dst_api_module', f'{base}/mods/service{r["set"]}.py').load_module()
            return etree.tostring(py2wsdl.generate_wsdl(m.SERVICE) if r['tool'] == 'py2wsdl' else py2xsd.generate_xsd(m.Schema)).decode()
        return go()
    j = {'kind': 'doc', 'set': r['set'], 'target': 'server' if r['target'] in ('-s', '--server') else 'client', 'wsa': r['wsa']}
    g = c13.alone(case, base, j, [0] * len(case['sets']), None)
    if 'out' not in g:
        raise RuntimeError(f'without any fault: {g}')
    return g['out']


def canon(tool, s):
    if tool.startswith('py2'):
        from lxml import etree
        try:
            return etree.canonicalize(s, strip_text=True)
        except (etree.XMLSyntaxError, ValueError, AssertionError):
            return 'not XML: ' + s[:200]
    return s.strip()


def run(case, v):
    with Scratch('c15') as base:
        files = {}
        for s in case['sets']:
            files.update(docs.files(s, base))
        docs.write(files, base)
        os.makedirs(base + '/mods')
        for k, s in enumerate(case['sets']):
            if c13.modular(s):
                g = solo(lambda: c13.alone(case, base, {'kind': 'doc', 'set': k, 'target': 'server', 'wsa': False}, [0] * len(case['sets']), None))
                if 'out' in g:
                    with open(f'{base}/mods/service{k}.py', 'w') as f:
                        f.write(c13.module_source(g['out']))
        before = snapshot(base)
        want = {}
        ok = bad = steps = 0
        fired, log = {}, []
        for r in case['runs']:
            k = (r['tool'], r['set'], r['target'], r['wsa'])
            if k not in want:
                a = solo(lambda: api(case, r, base))
                plain = dict(r, out='file', old=None, enc='utf-8', name='plain', **{'in': 'path'})
                p = solo(lambda: Process(case, plain, base, None, faults=False).run().result())
                want[k] = p['stored'] or ''
                if p['status'] != 0:
                    v('failed-without-fault', f'{r["tool"]} exited with {p["status"]}: {p["stderr"][-400:]}; run {plain}')
                elif canon(r['tool'], want[k]) != canon(r['tool'], a):
                    v('incomplete-output', f'{r["tool"]} exited with 0 and stored {len(want[k])} characters, not the output of {len(a)}: '
                                           f'{c12.diff(canon(r["tool"], a), canon(r["tool"], want[k]))}; run {plain}')
            got = solo(lambda: Process(case, sized_out(r, want[k]), base, None).run().result())
            steps += got['steps']
            log += got['log']
            for x, n in got['fired'].items():
                fired[x] = fired.get(x, 0) + n
            if got['aborted']:
                fired['abort'] = fired.get('abort', 0) + 1
            if got['stuck'] or got['overrun']:
                v('stuck', f'{got["stuck"] or "does not terminate"}; run {r}')
                continue
            if got['status'] == 0:
                if got['stored'] != want[k]:
                    v('exit-0-without-output', f'{r["tool"]} exited with 0 but stored {len(got["stored"] or "")} of {len(want[k])} characters '
                                               f'(faults {got["kinds"]}): {c12.diff(want[k], got["stored"] or "")}; run {r}')
                elif not (got['harmed'] or got['aborted']):
                    ok += 1
                elif unreadable(r, got):
                    v('exit-0-after-failure', f'{r["tool"]} exited with 0 although an input could not be read: {got["fired"]}; run {r}')
            else:
                bad += 1
                if not (got['harmed'] or got['aborted']):
                    v('undisturbed-run-failed', f'{r["tool"]} exited with {got["status"]}: {got["stderr"][-400:]}; run {r}')
                elif not got['stderr'].strip() and not got['aborted'] and got['status'] != 120:
                    v('no-error-report', f'{r["tool"]} exited with {got["status"]} and reported nothing; run {r}')
            after = snapshot(base)
            for p in before:
                if after.get(p) != before[p]:
                    v('input-modified', f'{p}; run {r}')
    assert harness and spec
    return {'sig': hash_of(log), 'simt': 0, 'steps': steps, 'npre': 0, 'faults': fired, 'record': [], 'log': log[:400],
            'nontrivial': bool(ok and bad), 'key': str(case['seed']),
            'probes': {'runs_succeeded': ok, 'runs_failed': bad},
            'summary': f'{len(case["runs"])} runs, {ok} succeeded, {bad} failed; faults {fired}'}


def unreadable(r, got):
    """Was an input lost for certain?  (A module cut short may still be one.)"""
    return not r['tool'].startswith('py2') and ('disk' in r or 'net' in r or 'rfault' in r) and got['harmed']


def sized_out(r, want):
    f = r.get('wfault')
    if f and 'at' in f and f['at'] > 1:
        return dict(r, wfault=dict(f, at=f['at'] % max(1, len(want.encode()))))
    return r


def hash_of(log):
    import zlib
    return zlib.crc32(repr(log).encode())


def reductions(case):
    import copy
    for i, r in enumerate(case['runs']):
        for k in ('disk', 'net', 'rfault', 'wfault', 'abort', 'usage'):
            if k in r:
                c = copy.deepcopy(case)
                del c['runs'][i][k]
                yield c
        if r['old'] or r['enc'] != 'utf-8' or r['entry'] != 'module' or r['wsa']:
            c = copy.deepcopy(case)
            c['runs'][i].update(old=None, enc='utf-8', entry='module', wsa=False)
            yield c
    for c in c12.reductions({'jobs': [], 'sets': case['sets']}):
        yield dict(copy.deepcopy(case), sets=c['sets'])
