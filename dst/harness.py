"""Cases, workers, minimisation, replay and evidence.

A *case* is a JSON object; running it is a pure function of the case, PYTHONHASHSEED and the code in /repo.  Every case
runs in a process of its own, forked from a pristine zygote that has only imported the library.
"""
import argparse
import hashlib
import importlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import time as _t

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get('DST_PYTHON', '/opt/venv/bin/python')
NWORK = int(os.environ.get('DST_WORKERS', '8'))
HASHSEEDS = [0, 1, 2, 3, 42, 1234, 77777, 4294967295]
RT = _t.monotonic      # the runner itself never installs the seams


class V:
    """Collects violations."""

    def __init__(self):
        self.items = []

    def __call__(self, kind, detail=''):
        if len(self.items) < 20:
            self.items.append({'kind': kind, 'detail': str(detail)[:2000]})

    def __bool__(self):
        return bool(self.items)


def case_for(prop, seed, i, tier):
    mod = importlib.import_module(f'props.{prop.lower()}')
    rng = random.Random(f'{prop}:{seed}:{i}')
    return json.loads(json.dumps(mod.gen(rng, tier)))


# ------------------------------------------------------------------ worker side
def child_setup():
    """Install the seams and import the library."""
    sys.path.insert(0, HERE)
    from dst import seams
    seams.install()
    import logging
    import warnings
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    logging.getLogger().addHandler(logging.NullHandler())
    import requests  # noqa: F401
    import lxml.etree  # noqa: F401
    import soapfish.soap  # noqa: F401
    import soapfish.soap_dispatch  # noqa: F401
    import soapfish.middlewares  # noqa: F401
    import soapfish.wsdl2py  # noqa: F401
    import soapfish.py2wsdl  # noqa: F401
    import soapfish.xsd2py  # noqa: F401
    import soapfish.py2xsd  # noqa: F401
    import soapfish.wsa  # noqa: F401
    import soapfish.flask_  # noqa: F401
    import soapfish.django_  # noqa: F401
    import soapfish.wsdl11  # noqa: F401
    import soapfish.wsdl12  # noqa: F401
    assert os.path.realpath(soapfish.soap.__file__).startswith(os.path.realpath(seams.REPO) + '/'), soapfish.soap.__file__
    seams.install_late()


PEERS = {}       # hash seed -> the socket of a process that has it


def start_peer(prop, hashseed):
    """A second process with another hash seed; every order it gets runs in a fork of its own."""
    from dst import seams
    import tempfile
    path = tempfile.mktemp(prefix='dst-peer-')
    srv = seams.REAL['socket'](1, 1)       # AF_UNIX, SOCK_STREAM
    srv.bind('\0' + path)
    srv.listen(8)
    os.set_inheritable(srv.fileno(), True)
    r, w = os.pipe()
    os.set_inheritable(w, False)
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1')
    subprocess.Popen([PY, '-W', 'ignore', '-c', f'import sys; sys.path.insert(0, {HERE!r}); from dst.harness import peer_main; '
                      f'peer_main({prop.lower()!r}, {srv.fileno()})'], stdin=r, stdout=subprocess.DEVNULL, env=env, cwd=HERE, pass_fds=[srv.fileno()])
    os.close(r)
    srv.close()
    PEERS[hashseed] = '\0' + path


def ask_peer(hashseed, order):
    from dst import seams
    c = seams.REAL['socket'](1, 1)
    c.connect(PEERS[hashseed])
    c.sendall(json.dumps(order).encode())
    c.shutdown(1)
    buf = b''
    while True:
        x = c.recv(1 << 20)
        if not x:
            break
        buf += x
    c.close()
    d = json.loads(buf)
    if 'error' in d:
        raise RuntimeError(d['error'])
    return d['ok']


def peer_main(prop, fd):
    from dst import seams
    child_setup()
    import gc
    gc.freeze()
    mod = importlib.import_module(f'props.{prop}')
    srv = seams.REAL['socket'](1, 1, 0, fd)
    while True:
        rr, _, _ = select.select([0, srv], [], [])
        if 0 in rr:          # the worker is gone
            os._exit(0)
        c, _ = srv.accept()
        pid = os.fork()
        if pid == 0:
            buf = b''
            while True:
                x = c.recv(1 << 20)
                if not x:
                    break
                buf += x
            try:
                data = {'ok': mod.peer(json.loads(buf))}
            except BaseException as e:  # noqa: B902
                import traceback
                data = {'error': ''.join(traceback.format_exception(e))[-3000:]}
            c.sendall(json.dumps(data).encode())
            os._exit(0)
        c.close()
        os.waitpid(pid, 0)


def worker_main():
    """Zygote: import everything once, then fork a child per case."""
    child_setup()
    from dst import net, sched, spec, front, world  # noqa: F401
    front.django_setup()
    front.warm()
    mods = {}
    import gc
    gc.collect()
    gc.freeze()
    gc.disable()
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open('/dev/null', os.O_RDWR)
    os.dup2(devnull, 1)
    sys.stdout = open('/dev/null', 'w')
    for line in sys.stdin:
        job = json.loads(line)
        if job.get('quit'):
            break
        p = job['prop']
        if p not in mods:
            mods[p] = importlib.import_module(f'props.{p.lower()}')
            for hs in getattr(mods[p], 'PEERS', ()):
                start_peer(p, hs)
        res = run_forked(mods[p], job)
        res['id'] = job['id']
        out.write(json.dumps(res) + '\n')
        out.flush()


def run_forked(mod, job):
    limit = job.get('limit', 60)
    r, w = os.pipe()
    t0 = REALMONO()
    pid = os.fork()
    if pid == 0:
        os.setpgid(0, 0)
        os.close(r)
        try:
            data = json.dumps(run_case(mod, job))
        except BaseException as e:  # noqa: B902
            import traceback
            data = json.dumps({'error': ''.join(traceback.format_exception(e))[-4000:]})
        try:
            b = data.encode()
            while b:
                b = b[os.write(w, b):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    timeout = False
    while True:
        left = limit - (REALMONO() - t0)
        if left <= 0:
            timeout = True
            break
        rr, _, _ = select.select([r], [], [], left)
        if not rr:
            timeout = True
            break
        c = os.read(r, 1 << 20)
        if not c:
            break
        buf += c
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        os.kill(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    _, st = os.waitpid(pid, 0)
    if timeout:
        return {'timeout': True, 'real': REALMONO() - t0}
    try:
        res = json.loads(buf)
    except ValueError:
        return {'died': st, 'real': REALMONO() - t0}
    res['real'] = REALMONO() - t0
    return res


def REALMONO():
    from dst.seams import REAL
    return REAL['monotonic']() if 'monotonic' in REAL else RT()


def run_case(mod, job):
    import resource
    import traceback
    from dst import seams
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    case = job.get('case')
    if case is None:
        case = case_for(job['prop'], job['seed'], job['i'], job['tier'])
    if job.get('sched') is not None:
        case['sched'] = job['sched']
    seams.reseed(case.get('seed', 0))
    v = V()
    res = {}
    try:
        res = mod.run(case, v) or {}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if isinstance(e, LibraryError) or any(f.filename.startswith(seams.REPO + '/soapfish/') for f in tb):
            v('library-raised', ''.join(traceback.format_exception(e))[-1500:])
        else:
            raise
    res['viol'] = v.items
    if v.items or job.get('want_case'):
        res['case'] = case
    elif 'record' in res:
        del res['record']
    return res


def solo(fn):
    """Run fn in a fork of the current (still pristine) process; returns its JSON-able result."""
    r, w = os.pipe()
    import random
    seed = random.getrandbits(64)
    pid = os.fork()
    if pid == 0:
        random.seed(seed)       # CPython reseeds from the OS in a forked child
        os.close(r)
        try:
            data = json.dumps({'ok': fn()})
        except BaseException as e:  # noqa: B902
            import traceback
            data = json.dumps({'error': ''.join(traceback.format_exception(e))[-3000:]})
        try:
            b = data.encode()
            while b:
                b = b[os.write(w, b):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    while True:
        c = os.read(r, 1 << 20)
        if not c:
            break
        buf += c
    os.close(r)
    os.waitpid(pid, 0)
    d = json.loads(buf)
    if 'error' in d:
        if '/soapfish/' in d['error'].split('dst/harness.py', 1)[-1]:
            raise LibraryError(d['error'])
        raise RuntimeError(d['error'])
    return d['ok']


class LibraryError(Exception):
    """The library raised where nothing disturbed it (in a solo run)."""


# ------------------------------------------------------------------ runner side
class Worker:
    def __init__(self, n, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1')
        self.n, self.hashseed = n, hashseed
        self.err = open(os.path.join('/tmp', f'dst-worker-{os.getpid()}-{n}.err'), 'w+b')
        os.unlink(self.err.name)
        self.p = subprocess.Popen([PY, '-W', 'ignore', '-c',
                                   f'import sys; sys.path.insert(0, {HERE!r}); from dst.harness import worker_main; worker_main()'],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=HERE)
        self.busy = None
        self.buf = b''

    def send(self, job):
        self.busy = job
        self.p.stdin.write(json.dumps(job).encode() + b'\n')
        self.p.stdin.flush()

    def recv(self):
        """Read what is there; returns a result or None."""
        c = os.read(self.p.stdout.fileno(), 1 << 20)
        if not c:
            self.err.seek(0)
            raise RuntimeError(f'worker {self.n} died: ' + self.err.read()[-3000:].decode('utf-8', 'replace'))
        self.buf += c
        if b'\n' in self.buf:
            line, self.buf = self.buf.split(b'\n', 1)
            self.busy = None
            return json.loads(line)
        return None

    def close(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        self.err.close()


class Pool:
    def __init__(self, n=NWORK, hashseeds=None):
        hs = hashseeds or HASHSEEDS
        self.w = [Worker(i, hs[i % len(hs)]) for i in range(n)]

    def map(self, jobs, until=None, on=None):
        """Run jobs (iterator) on all workers; on(job, result, worker) is called for each; stops taking jobs when on() is
        true or the clock passes until()."""
        it = iter(jobs)
        stop = False
        k = 0
        while True:
            for w in self.w:
                if w.busy is None and not stop:
                    if until is not None and until():
                        stop = True
                        break
                    j = next(it, None)
                    if j is None:
                        stop = True
                        break
                    j['id'] = k
                    k += 1
                    w.send(j)
            busy = [w for w in self.w if w.busy is not None]
            if not busy:
                return
            rr, _, _ = select.select([w.p.stdout for w in busy], [], [], 1.0)
            for w in busy:
                if w.p.stdout in rr:
                    j = w.busy
                    res = w.recv()
                    if res is not None and on is not None and on(j, res, w):
                        stop = True

    def one(self, job, w=None):
        w = w or self.w[0]
        job['id'] = 0
        w.send(job)
        while True:
            r = w.recv()
            if r is not None:
                return r

    def close(self):
        for w in self.w:
            w.close()


def known_findings(prop):
    """[(signature, text)] of the defects recorded, not repaired, for this property."""
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings'] if f['property'] == prop]


def matches_finding(f, viol):
    return viol['kind'] == f['kind'] and all(x in viol['detail'] for x in f.get('contains', []))


def evaluate(pool, prop, case, sched=None, w=None, limit=60):
    job = {'prop': prop, 'case': case, 'limit': limit, 'want_case': False}
    if sched is not None:
        job['sched'] = sched
    return pool.one(job, w)


def kinds(res):
    if res.get('timeout'):
        return {'hang'}
    if 'died' in res:
        return {'died'}
    return {x['kind'] for x in res.get('viol', ())}


def minimise(pool, prop, case, res, want, w, budget=45.0):
    """Greedy delta debugging over the schedule, the lists and the scalars a property marks as reducible."""
    mod = importlib.import_module(f'props.{prop.lower()}')
    t0 = RT()
    tries = [0]

    def ok(c):
        if RT() - t0 > budget:
            return None
        tries[0] += 1
        r = evaluate(pool, prop, c, w=w, limit=30)
        return r if want & kinds(r) else None

    best, bres = case, res
    # pin the schedule
    if best.get('sched', {}).get('mode') == 'rand':
        c = dict(best, sched=dict(best['sched'], mode='list', switches=bres.get('record', [])))
        r = ok(c)
        if r:
            best, bres = c, r
    changed = True
    while changed and RT() - t0 < budget:
        changed = False
        for c in _reductions(mod, best):
            if RT() - t0 > budget:
                break
            r = ok(c)
            if r:
                best, bres, changed = c, r, True
                break
    return best, bres, tries[0]


def _reductions(mod, case):
    # schedule first: whole, halves, ... single switches
    sch = case.get('sched') or {}
    if sch.get('mode') == 'list' and sch.get('switches'):
        sw = sch['switches']
        for sub in _chunks(sw):
            yield dict(case, sched=dict(sch, switches=sub))
    elif sch.get('mode') == 'rand' and sch.get('p'):
        yield dict(case, sched={'mode': 'rand', 'seed': 0, 'p': 0.0})
    for key in getattr(mod, 'LISTS', ()):
        lst = case.get(key) or []
        for sub in _chunks(lst):
            yield dict(case, **{key: sub})
    for key, val in getattr(mod, 'SIMPLER', {}).items():
        if key in case and case[key] != val:
            yield dict(case, **{key: val})
    fn = getattr(mod, 'reductions', None)
    if fn is not None:
        yield from fn(case)


def _chunks(lst):
    n = len(lst)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            yield lst[:i] + lst[i + size:]
        size //= 2


def write_replay(prop, case, res, hashseed, seed, tries):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {'property': prop, 'verif_seed': seed, 'hashseed': hashseed, 'case': case,
            'violation': (res.get('viol') or [{'kind': next(iter(kinds(res)), '?'), 'detail': ''}])[:5],
            'events': res.get('log'), 'minimisation_runs': tries}
    s = json.dumps(body, indent=1, sort_keys=True)
    p = os.path.join(d, f'{prop}-{hashlib.sha1(s.encode()).hexdigest()[:10]}.json')
    with open(p, 'w') as f:
        f.write(s + '\n')
    return p


def replay(path):
    body = json.load(open(path))
    prop = body['property']
    pool = Pool(1, [body['hashseed']])
    try:
        res = evaluate(pool, prop, body['case'])
    finally:
        pool.close()
    return prop, body, res


def merge_count(a, b):
    for k, x in (b or {}).items():
        a[k] = a.get(k, 0) + x


def selftest(prop, seed, tier, n):
    """One seed is one execution: the same cases in different processes and orders give the same results in every detail."""
    def rounds(nw, order):
        pool, out = Pool(nw, [1234]), {}
        try:
            pool.map(({'prop': prop, 'seed': seed, 'i': i, 'tier': tier, 'limit': 60, 'want_case': True} for i in order),
                     on=lambda job, res, w: out.__setitem__(job['i'], json.dumps({k: x for k, x in res.items() if k not in ('real', 'id')}, sort_keys=True)))
        finally:
            pool.close()
        return out
    a, b = rounds(NWORK, range(n)), rounds(max(1, NWORK - 3), reversed(range(n)))
    diff = [i for i in range(n) if a[i] != b[i]]
    for i in diff[:3]:
        x, y = json.loads(a[i]), json.loads(b[i])
        for k in sorted(set(x) | set(y)):
            if x.get(k) != y.get(k):
                print(f'case {i}: {k} differs: {str(x.get(k))[:300]} / {str(y.get(k))[:300]}')
    print(f'selftest property={prop} seed={seed} cases={n} different={len(diff)}')
    return 2 if diff else 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int, default=None)
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--one', type=int, default=None, help='run one case index and print its result')
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--selftest', type=int, default=None, metavar='N', help='run N cases twice, in other processes and order, and compare everything')
    opt = ap.parse_args(argv)
    sys.path.insert(0, HERE)
    try:
        return _main(opt)
    except KeyboardInterrupt:
        raise
    except Exception as e:
        import traceback
        traceback.print_exc()
        print(f'HARNESS-ERROR property={opt.prop} {e}')
        return 2


def _main(opt):
    prop = opt.prop
    seed = opt.seed if opt.seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = opt.tier or os.environ.get('VERIF_TIER', 'quick')
    if opt.replay:
        prop, body, res = replay(opt.replay)
        ks = kinds(res)
        print(json.dumps({'viol': res.get('viol'), 'log': res.get('log'), 'error': res.get('error'),
                          'timeout': res.get('timeout')}, indent=1))
        if ks:
            same = res.get('log') == body.get('events')
            print(f'replay reproduces: kinds={sorted(ks)} identical-event-log={same}')
            print(f'VIOLATION property={prop} replay={os.path.abspath(opt.replay)}')
            return 1
        return 2 if res.get('error') or res.get('timeout') or 'died' in res else 0
    mod = importlib.import_module(f'props.{prop.lower()}')
    t0 = RT()
    if opt.one is not None:
        pool = Pool(1)
        r = pool.one({'prop': prop, 'seed': seed, 'i': opt.one, 'tier': tier, 'want_case': True, 'limit': 120})
        pool.close()
        print(json.dumps(r, indent=1))
        return 1 if r.get('viol') else 0
    if opt.selftest:
        return selftest(prop, seed, tier, opt.selftest)
    ncases = opt.cases or (mod.QUICK if tier == 'quick' else mod.THOROUGH)
    budget = opt.budget or (float(os.environ.get('DST_BUDGET', '0')) or (getattr(mod, 'QUICK_S', 60) if tier == 'quick'
                                                                         else getattr(mod, 'THOROUGH_S', 600)))
    print(f'property={prop} tier={tier} VERIF_SEED={seed} cases<={ncases} budget={budget:.0f}s workers={NWORK}', flush=True)
    pool = Pool(min(NWORK, ncases))
    st = {'n': 0, 'sigs': set(), 'faults': {}, 'probes': {}, 'simt': 0.0, 'steps': 0, 'npre': 0, 'nontrivial': set(), 'real': 0.0}
    bad, errors, samples, hung = [], [], [], []
    findings = known_findings(prop)
    seen_find = {}

    def jobs():
        for i in range(opt.start, opt.start + ncases):
            yield {'prop': prop, 'seed': seed, 'i': i, 'tier': tier, 'limit': 60}

    def on(job, res, w):
        st['n'] += 1
        st['real'] += res.get('real', 0.0)
        if res.get('timeout') or 'died' in res:
            hung.append((job, res, w))
            return len(hung) > 2
        if 'error' in res:
            errors.append((job['i'], res['error']))
            return len(errors) > 3
        if 'sig' in res:
            st['sigs'].add(res['sig'])
        merge_count(st['faults'], res.get('faults'))
        merge_count(st['probes'], res.get('probes'))
        st['simt'] += res.get('simt', 0.0)
        st['steps'] += res.get('steps', 0)
        st['npre'] += res.get('npre', 0)
        if res.get('nontrivial'):
            st['nontrivial'].add(res.get('key') or f'{job["i"]}')
        if len(samples) < 3 and res.get('nontrivial'):
            samples.append({'seed': f'{prop}:{seed}:{job["i"]}', 'summary': res.get('summary')})
        left = []
        for x in res['viol']:
            f = next((f for f in findings if matches_finding(f, x)), None)
            if f is not None:
                seen_find[f['id']] = f
            else:
                left.append(x)
        if left:
            bad.append((job, res, w, left))
            return True
        return False

    try:
        pool.map(jobs(), until=lambda: RT() - t0 > budget, on=on)
        rc = 0
        for f in findings:
            print(f'KNOWN-FINDING: property={prop} {f["what"]}')
        if hung and not bad:
            # a wall-clock limit is not a verdict by itself: run the case again, alone, with twice the time
            job, res, w = hung[0]
            r2 = pool.one(dict(job, limit=120, want_case=True), w)
            if r2.get('timeout') and getattr(mod, 'HANG_IS_VIOLATION', False):
                case = case_for(prop, seed, job['i'], tier)
                p = write_replay(prop, case, r2, w.hashseed, seed, 0)
                print(f'case {job["i"]}: no progress in 120 s of real time, twice')
                print(f'VIOLATION property={prop} replay={p}')
                rc = 1
            elif r2.get('viol'):
                bad.append((job, r2, w, r2['viol']))
            else:
                errors.append((job['i'], f'timeout/died: {res} then {str(r2)[:300]}'))
        if bad:
            job, res, w, left = bad[0]
            want = {x['kind'] for x in left}
            case, r2, tries = minimise(pool, prop, res['case'], res, want, w)
            p = write_replay(prop, case, r2, w.hashseed, seed, tries)
            for x in (r2.get('viol') or left)[:3]:
                print(f'case {job["i"]}: {x["kind"]}: {x["detail"][:1200]}')
            print(f'VIOLATION property={prop} replay={p}')
            rc = 1
        elif errors and rc == 0:
            for i, e in errors[:3]:
                print(f'HARNESS-ERROR property={prop} case={i}\n{e}')
            rc = 2
    finally:
        pool.close()
    wall = RT() - t0
    cov = {
        'evaluations': st['n'], 'distinct_nontrivial': len(st['nontrivial']), 'rule': mod.RULE, 'samples': samples,
        "simulated_runs_per_hour": round(st["n"] / max(wall, 1e-6) * 3600),
        'simulated_seconds': round(st['simt'], 3), 'scheduler_steps': st['steps'], 'preemptions': st['npre'],
        'distinct_interleavings': len(st['sigs']),
        'interleaving_measure': 'distinct CRC32 chains over the sequence of (task, position, next task) switches of a run',
        'faults_injected': dict(sorted(st['faults'].items())), 'probes': dict(sorted(st['probes'].items())),
        'components': mod.COMPONENTS, 'python_hash_seeds': HASHSEEDS[:NWORK], 'workers': NWORK,
    }
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'exploration',
          'coverage': cov, 'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': 1 if rc == 1 else 0}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print(f'{prop}: {st["n"]} runs, {len(st["nontrivial"])} non-trivial, {len(st["sigs"])} interleavings, '
          f'{sum(st["faults"].values())} faults injected, {st["simt"]:.1f} simulated s, {wall:.1f} s wall, exit {rc}')
    return rc


if __name__ == '__main__':
    sys.exit(main())
