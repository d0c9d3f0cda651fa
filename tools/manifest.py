"""Writes /verif/MANIFEST.json from the properties that have a module in props/."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = 'A pure function of its input: no schedule, clock, I/O or other party can influence it, so a simulator has nothing to decide. '
NA = {
    'C18': PURE + 'Values of every type do cross the simulated network in C01, which compares them end to end.',
    'C19': PURE,
    'C20': PURE + 'C10 and C14 compare published schemas and regenerated code with the running service.',
    'C21': PURE + '(The machine time zone is varied in C13 for generated text.)',
}
NOTES = {}
ids = [json.loads(x)['id'] for x in open(os.path.join(HERE, 'properties.jsonl'))]
have = [i for i in ids if os.path.exists(os.path.join(HERE, 'props', i.lower() + '.py'))]
if len(sys.argv) > 1:
    have = [i for i in have if i not in sys.argv[1:]]
checks = []
for i in have:
    checks.append({
        'property': i, 'quick_cmd': f'./check.sh {i} --tier quick', 'thorough_cmd': f'./check.sh {i} --tier thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': 'deterministic simulation with fault injection: seeded search over schedules, fault sequences and workloads',
        'level': 'exploration',
        'level_note': 'Samples executions of the real library under a simulated scheduler, network, clock and disk; a quiet run is '
                      'evidence over the runs counted in the evidence file, not proof. Trusts the harness\'s own XML/XSD reference '
                      'model, CPython line-level atomicity and libxml2.'})
na = [{'property': i, 'reason': NA.get(i, 'Not built yet.')} for i in ids if i not in have]
doc = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
       'notes': 'No hooks in /repo: every seam is reached from outside (clocks, randomness, sockets, locks, files, tracing). '
                './check.sh <id> --replay <file> reproduces a reported violation.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', [x['property'] for x in na])
