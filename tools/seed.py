"""seed tool (development only; no check uses it)

seed.py make DEFS.py        create seeded/<id>/ from definitions
seed.py validate [ids...]   in a scratch copy: demo passes clean, fails patched, tests pass; then which checks catch it
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
RESULTS = os.path.join(HERE, 'tools', 'seed_results.json')
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', HOME='/root')


def scratch():
    d = tempfile.mkdtemp(prefix='seed')
    subprocess.check_call('git -C /repo archive HEAD | tar -x -C %s' % d, shell=True)
    return d


def seed(id, prop, edits, demo, needs, breaks):
    out = os.path.join(SEEDED, id)
    a = scratch()
    try:
        subprocess.check_call('git init -q . && git add -A && git -c user.email=a@b -c user.name=x commit -qm x',
                              shell=True, cwd=a)
        for f, old, new in edits:
            p = os.path.join(a, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=a, text=True)
    finally:
        shutil.rmtree(a)
    root = subprocess.check_output('git -C /repo rev-list --max-parents=0 HEAD', shell=True, text=True).split()[0]
    orig = set()
    for f in {f for f, _, _ in edits}:
        r = subprocess.run(['git', '-C', '/repo', 'show', '%s:%s' % (root, f)], capture_output=True, text=True)
        orig.update(r.stdout.split('\n'))
    ours = [l for l in diff.split('\n') if l.startswith('-') and not l.startswith('---') and l[1:] not in orig]
    if ours:
        print('WARNING', id, 'changes lines of our own:', ours)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    open(os.path.join(out, 'demo.py'), 'w').write(demo.lstrip('\n'))
    open(os.path.join(out, 'demo.sh'), 'w').write(
        '#!/bin/bash\n# run with cwd = the repository\n'
        'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
        'exec timeout 120 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    print('made', id)


def demo(id, cwd):
    return subprocess.run(['bash', os.path.join(SEEDED, id, 'demo.sh')], cwd=cwd, env=ENV,
                          capture_output=True, text=True)


def validate(id, tests=True):
    meta = json.load(open(os.path.join(SEEDED, id, 'meta.json')))
    d = scratch()
    r = {'property': meta['property']}
    try:
        p = demo(id, d)
        r['demo_clean'] = p.returncode
        if p.returncode:
            r['err'] = (p.stdout + p.stderr)[-500:]
        subprocess.check_call(['git', 'apply', '--unsafe-paths', '--directory=' + d,
                               os.path.join(SEEDED, id, 'patch.diff')], cwd='/')
        p = demo(id, d)
        r['demo_patched'] = p.returncode
        r['demo_msg'] = (p.stdout + p.stderr)[-200:]
        p = subprocess.run([PY, 'run.py', 'check', meta['property'], '--tier', 'quick'], cwd=HERE,
                           env=dict(ENV, VERIF_REPO=d, VERIF_NOEVIDENCE='1'), capture_output=True, text=True)
        r['check'] = p.returncode
        r['check_out'] = [l for l in p.stdout.splitlines() if 'VIOLATION' in l or 'INCONCL' in l][:2]
        if tests:
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            x = os.path.join(d, 'junit%d.xml')
            subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'no:xdist', '--timeout=120',
                            '-o', 'junit_family=xunit2', '--junitxml', x % 1, 'tests/test_files.py',
                            'tests/test_configuration'], cwd=d, env=ENV, capture_output=True)
            subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '8', '--dist', 'loadfile',
                            '--timeout=120', '-o', 'junit_family=xunit2', '--junitxml', x % 2,
                            '--ignore=tests/test_files.py', '--ignore=tests/test_configuration', 'tests'],
                           cwd=d, env=ENV, capture_output=True)
            import xml.etree.ElementTree as ET
            ok = set()
            for i in (1, 2):
                for tc in ET.parse(x % i).iter('testcase'):
                    if not any(c.tag in ('failure', 'error', 'skipped') for c in tc):
                        ok.add('%s::%s' % (tc.get('classname'), tc.get('name')))
            r['tests_failed'] = sorted(set(base) - ok)
    finally:
        shutil.rmtree(d)
    return r


def main():
    if sys.argv[1] == 'make':
        exec(compile(open(sys.argv[2]).read(), sys.argv[2], 'exec'), {'seed': seed})
        return
    tests = '--notests' not in sys.argv
    ids = [a for a in sys.argv[2:] if a[0] != '-'] or sorted(os.listdir(SEEDED))
    res = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
    if '--new' in sys.argv:
        ids = [i for i in ids if i not in res]
    for id in ids:
        r = validate(id, tests)
        if not tests and 'tests_failed' in res.get(id, {}):
            r['tests_failed'] = res[id]['tests_failed']
        res[id] = r
        print(id, r['property'], 'demo', r['demo_clean'], r['demo_patched'], 'check', r['check'], r['check_out'],
              'tests_failed', r.get('tests_failed'), r.get('err', ''), flush=True)
        json.dump(res, open(RESULTS, 'w'), indent=1, sort_keys=True)


main()
