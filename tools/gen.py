"""writes /verif/properties.jsonl and /verif/MANIFEST.json from props/meta.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props.meta import P, NOT_APPLICABLE     # noqa

have = {f.split('_')[0].upper() for f in os.listdir(os.path.join(HERE, 'props')) if f[0] == 'c' and f[1].isdigit()}
na = {x['property'] for x in NOT_APPLICABLE}
claimed = [p for p in P if p['id'] in have and p['id'] not in na]
missing = [p['id'] for p in P if p['id'] not in have and p['id'] not in na]
assert not missing, missing
assert not have - {p['id'] for p in P}, have - {p['id'] for p in P}
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({
        'version': 1,
        'setup_cmd': 'bash tools/setup.sh',
        'checks': [{
            'property': p['id'],
            'quick_cmd': '/opt/venv/bin/python run.py check %s --tier quick' % p['id'],
            'thorough_cmd': '/opt/venv/bin/python run.py check %s --tier thorough' % p['id'],
            'technique': 'symbolic execution of the real Python code with z3 (bounded, all paths)',
            'level': 'model_checking',
            'level_note': 'Every path of the harness through the real functions, for all values of the '
                          'symbolic inputs within the bounds stated in the evidence (operation counts, '
                          'container sizes); each branch and assertion is decided by z3 and each path '
                          'model is replayed on the plain code.',
        } for p in claimed],
        'not_applicable': NOT_APPLICABLE,
        'notes': 'Fixed defects are listed in known_findings.txt; method, bounds and trust base in DESIGN.md.',
    }, f, indent=1)
print(len(claimed), 'claimed')


import subprocess  # noqa
import textwrap    # noqa
L = json.loads(subprocess.check_output(['/opt/venv/bin/python', 'run.py', 'list'], cwd=HERE))
t = []
for p in claimed:
    t.append('### %s %s\n' % (p['id'], p['title']))
    t.append(textwrap.fill(p['statement'], 110) + '\n')
    t.append('Why tests cannot: %s. Quantified over: %s.\n' % (p['why_tests_cant'], p['quantifier']['text']))
    for n, b, q, th in L[p['id']]['harnesses']:
        t.append('- `%s`: %s (quick %s%s)' % (n, ' '.join(b.split()), q, ', thorough %s' % (th,) if th else ''))
    if L[p['id']]['assumptions']:
        t.append('\nAssumptions: ' + '; '.join(L[p['id']]['assumptions']) + '.')
    t.append('')
res = json.load(open(os.path.join(HERE, 'tools', 'seed_results.json')))
sd = ['| bug | property | needs | caught by its quick check |', '|---|---|---|---|']
for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', i, 'meta.json')))
    sd.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], {0: 'no', 1: 'yes'}.get(res.get(i, {}).get('check'), '?')))
tm = open(os.path.join(HERE, 'tools', 'design.tmpl')).read()
tm = tm.replace('@@TABLE@@', '\n'.join(t)).replace('@@SEEDS@@', '\n'.join(sd)).replace(
    '@@NA@@', '\n'.join('- %s: %s' % (x['property'], x['reason']) for x in NOT_APPLICABLE) or '(none)')
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(tm)
