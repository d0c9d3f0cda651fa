"""Planted bugs: `seed.py add ID PROP SPEC.py` makes /verif/seeded/ID after confirming it; `seed.py hit ID [PROP...]` runs checks on it.

SPEC.py defines EDITS = [(file, old, new), ...], NEEDS, BREAKS and DEMO (a Python program run with cwd = the repository).
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = json.load(open('/opt/vp/BASELINE.json'))
STABLE = BASE.get('stable') or BASE.get('passed') or BASE.get('tests') if isinstance(BASE, dict) else BASE


def copy():
    d = tempfile.mkdtemp(prefix='seed-')
    r = os.path.join(d, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', r])
    subprocess.check_call(['git', '-C', r, 'checkout', '-q', '--', '.'])
    return d, r


def env(r):
    return dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC')


def tests(r, d):
    out = os.path.join(d, 'r.xml')
    p = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', f'--junitxml={out}', '-o', 'junit_family=xunit2'],
                       cwd=r, env=env(r), capture_output=True, text=True)
    bad = set()
    for tc in ET.parse(out).getroot().iter('testcase'):
        if any(c.tag in ('failure', 'error') for c in tc):
            bad.add(tc.get('classname') + '::' + tc.get('name'))
    return bad, p.stdout[-1500:]


def demo(path, r):
    p = subprocess.run(['bash', os.path.join(path, 'demo.sh')], cwd=r, env=env(r), capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-1500:]


def add(sid, prop, spec):
    ns = {}
    exec(open(spec).read(), ns)
    d, r = copy()
    try:
        clean, _ = tests(r, d)
        for f, old, new in ns['EDITS']:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', r, 'diff'], text=True)
        bad, tail = tests(r, d)
        new_bad = bad - clean
        if new_bad:
            print('REJECTED: tests fail', sorted(new_bad)[:5], tail)
            return 1
        dst = os.path.join(d, 'bug')
        os.makedirs(dst)
        open(os.path.join(dst, 'patch.diff'), 'w').write(diff)
        open(os.path.join(dst, 'demo.py'), 'w').write(ns['DEMO'].lstrip('\n'))
        open(os.path.join(dst, 'demo.sh'), 'w').write('#!/bin/bash\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(dst, 'demo.sh'), 0o755)
        json.dump({'property': prop, 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
        rc, out = demo(dst, r)
        rc0, out0 = demo(dst, '/repo')
        if rc == 0 or rc0 != 0:
            print(f'REJECTED: demo gives {rc} with the patch and {rc0} without\n{out}\n----\n{out0}')
            return 1
        for k in range(2):
            assert demo(dst, '/repo')[0] == 0 and demo(dst, r)[0] != 0, 'flaky demo'
        final = os.path.join(HERE, 'seeded', sid)
        shutil.rmtree(final, ignore_errors=True)
        shutil.copytree(dst, final)
        print(f'{sid}: kept; demo says: {out.strip().splitlines()[-1] if out.strip() else ""}')
        return 0
    finally:
        shutil.rmtree(d)


def hit(sid, props, extra=()):
    b = os.path.join(HERE, 'seeded', sid)
    props = props or [json.load(open(os.path.join(b, 'meta.json')))['property']]
    d, r = copy()
    try:
        subprocess.check_call(['git', '-C', r, 'apply', os.path.join(b, 'patch.diff')])
        for p in props:
            x = subprocess.run([os.path.join(HERE, 'check.sh'), p, *extra], capture_output=True, text=True,
                               env=dict(os.environ, SOAPFISH_REPO=r))
            lines = x.stdout.strip().splitlines()
            hits = [ln for ln in lines if ln.startswith(('VIOLATION', 'case', 'HARNESS'))]
            print(f'{sid} {p}: exit {x.returncode}; {lines[-1] if lines else x.stderr[-500:]}')
            for ln in hits[:3]:
                print('    ', ln[:300])
            sys.stdout.flush()
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == 'add':
        sys.exit(add(*sys.argv[2:5]))
    if sys.argv[1] == 'hit':
        a = sys.argv[2:]
        ids = [x for x in a if os.path.isdir(os.path.join(HERE, 'seeded', x))] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
        for s in ids:
            hit(s, [x for x in a if x not in ids])
