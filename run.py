#!/opt/venv/bin/python
"""
run.py check <ID> [--tier quick|thorough] [--jobs N] [--only harness]
run.py replay <file.json>
run.py list
"""
import argparse
import concurrent.futures
import importlib
import json
import logging
import multiprocessing
import os
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))


def bootstrap():
    if os.environ.get('PYTHONHASHSEED') != '0' or sys.dont_write_bytecode is False \
            or sys.executable != '/opt/venv/bin/python':
        os.environ['PYTHONHASHSEED'] = '0'
        os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
        os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-W', 'ignore'] + sys.argv)
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(3000)
    from engine import timestub
    timestub.install()


def load(prop):
    for f in sorted(os.listdir(os.path.join(HERE, 'props'))):
        if f.startswith(prop.lower() + '_') and f.endswith('.py'):
            return importlib.import_module('props.' + f[:-3]).R
    raise SystemExit('no such property %s' % (prop,))


_REG = None


def _worker(hi, pi, tier, prefixes, slice_s, max_paths):
    from engine.explore import explore_slice
    h = _REG.harnesses[hi]
    return explore_slice(h, h.params(tier)[pi], prefixes, slice_s, max_paths)


def check(prop, tier, jobs, only, deadline_s, verbose):
    global _REG
    t0 = time.monotonic()
    os.chdir(HERE)
    _REG = load(prop)
    import satella
    repo = os.environ.get('VERIF_REPO', '/repo')
    assert satella.__file__ == repo + '/satella/__init__.py', satella.__file__
    from engine.core import Stats
    units = []
    for hi, h in enumerate(_REG.harnesses):
        if only and not h.name.startswith(only):
            continue
        for pi, p in enumerate(h.params(tier)):
            units.append({'hi': hi, 'pi': pi, 'name': h.name, 'params': p, 'queue': [()],
                          'running': 0, 'stats': Stats(), 'labels': set(), 'gaps': [],
                          'transitions': 0, 'validated': 0, 'undecided': 0, 'nondet': 0,
                          'samples': [], 'busy_s': 0.0})
    functions = set()
    violation = None
    broken = []
    ctx = multiprocessing.get_context('fork')
    ex = concurrent.futures.ProcessPoolExecutor(jobs, mp_context=ctx)
    futs = {}
    timed_out = False
    try:
        while True:
            # schedule: round robin over units with work
            progress = True
            while progress and len(futs) < jobs * 2:
                progress = False
                for u in sorted(units, key=lambda u: u['running']):
                    if u['queue'] and len(futs) < jobs * 2:
                        # hand over a share of the queue, oldest first (largest subtrees)
                        n = max(1, min(len(u['queue']) // (2 * jobs), 64))
                        batch, u['queue'] = u['queue'][:n], u['queue'][n:]
                        slice_s = 0.3 if u['stats'].paths < 50 else 1.5
                        f = ex.submit(_worker, u['hi'], u['pi'], tier, batch, slice_s, 10 ** 9)
                        futs[f] = (u, time.monotonic())
                        u['running'] += 1
                        progress = True
            if not futs:
                break
            done, _ = concurrent.futures.wait(list(futs), timeout=5,
                                              return_when=concurrent.futures.FIRST_COMPLETED)
            for f in done:
                u, started = futs.pop(f)
                u['running'] -= 1
                try:
                    r = f.result()
                except Exception as e:     # a worker died
                    broken.append('%s: %r' % (u['name'], e))
                    continue
                u['stats'].add(r['stats'])
                u['labels'] |= set(r['labels'])
                u['gaps'] += r['gaps']
                for k in ('transitions', 'validated', 'undecided', 'nondet'):
                    u[k] += r[k]
                if len(u['samples']) < 2:
                    u['samples'] += r['samples']
                functions |= set(r['functions'])
                u['queue'] += r['frontier']
                if r['violation'] and violation is None:
                    violation = (u, r['violation'])
            if violation or broken:
                break
            if time.monotonic() - t0 > deadline_s:
                timed_out = True
                break
    finally:
        for p in list(getattr(ex, '_processes', {}).values()):
            p.kill()
        ex.shutdown(wait=False, cancel_futures=True)

    total = Stats()
    harness_reports = []
    inconclusive = []
    for u in units:
        total.add(u['stats'])
        h = _REG.harnesses[u['hi']]
        missing = sorted(set(h.labels) - u['labels'])
        complete = not u['queue'] and not u['running'] and not timed_out
        harness_reports.append({
            'harness': u['name'], 'params': u['params'], 'bounds': h.bounds,
            'complete': complete, 'reachability_witnesses': sorted(u['labels']),
            'missing_witnesses': missing, **u['stats'].as_dict(),
            'validated_concretely': u['validated'], 'nondeterministic': u['nondet'],
            'undecided': u['undecided']})
        if not violation:
            if not complete:
                inconclusive.append('%s %s: exploration incomplete' % (u['name'], u['params']))
            if u['stats'].gaps:
                inconclusive.append('%s %s: %d counterexample(s) did not reproduce, e.g. %s' % (
                    u['name'], u['params'], u['stats'].gaps, u['gaps'][0]))
            if u['nondet']:
                inconclusive.append('%s: %d nondeterministic paths' % (u['name'], u['nondet']))
            if u['stats'].unknown or u['undecided']:
                inconclusive.append('%s: %d unknown answers' % (u['name'], u['stats'].unknown))
            if u['stats'].truncated and 'truncation-ok' not in h.bounds:
                inconclusive.append('%s: %d truncated paths' % (u['name'], u['stats'].truncated))
    # labels are required per harness over all its parameter sets
    for hi, h in enumerate(_REG.harnesses):
        us = [u for u in units if u['hi'] == hi]
        if us and not violation:
            miss = set(h.labels) - set().union(*[u['labels'] for u in us])
            if miss:
                inconclusive.append('%s: vacuous, never reached %s' % (h.name, sorted(miss)))
    inconclusive += broken

    wall = time.monotonic() - t0
    samples = [{'harness': u['name'], 'model': s} for u in units for s in u['samples'][:1]][:12]
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'model_checking', 'wall_s': round(wall, 3),
        'violations': 1 if violation else 0,
        'assumptions': _REG.assumptions,
        'coverage': {
            'states': total.paths, 'transitions': sum(u['transitions'] for u in units),
            'traces_validated_against_impl': sum(u['validated'] for u in units),
            'samples': samples,
            'exhaustive': not inconclusive and not violation,
            'explanation': 'states = symbolic paths of the real code explored; transitions = '
                           'branch decisions taken on them, each decided by the solver; '
                           'traces_validated_against_impl = path models re-run concretely on the '
                           'unpatched code with the same outcome.',
            'queries_discharged': total.queries, 'solver_s': round(total.solver_s, 3),
            'sat': total.sat, 'unsat': total.unsat, 'unknown': total.unknown,
            'assertions_decided': total.assertions,
            'harnesses': harness_reports,
            'functions_encoded': sorted(functions),
            'inconclusive': inconclusive,
            'solver': 'z3',
        },
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not only and not os.environ.get('VERIF_NOEVIDENCE'):
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if verbose:
        for r in harness_reports:
            print('  %-34s %-40s paths=%d ok=%d infeas=%d trunc=%d q=%d solver=%.1fs gaps=%d '
                  'complete=%s missing=%s' % (
                      r['harness'], r['params'], r['paths'], r['ok'], r['infeasible'],
                      r['truncated'], r['queries'], r['solver_s'], r['gaps'], r['complete'],
                      r['missing_witnesses']))
    print('%s %s: %d paths, %d solver queries (%.1f s), %d assertions decided, %d functions, '
          '%d path models validated concretely, %.1f s' % (
              prop, tier, total.paths, total.queries, total.solver_s, total.assertions,
              len(functions), ev['coverage']['traces_validated_against_impl'], wall))
    for i in inconclusive:
        print('INCONCLUSIVE %s' % (i,))
    if violation:
        u, v = violation
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '%s-%s.json' % (prop, u['name']))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'harness': u['name'], 'params': u['params'],
                       'witness': v['witness'], 'distinct': v['distinct'], 'message': v['message'],
                       'symbolic_message': v['symbolic_message']}, f, indent=1)
        print('harness %s %s\n%s\nwitness: %s' % (u['name'], u['params'], v['message'],
                                                 json.dumps(v['witness'])))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    reg = load(d['property'])
    h = [h for h in reg.harnesses if h.name == d['harness']][0]
    from engine.explore import run_concrete
    status, msg, labels = run_concrete(h, d['params'], d['witness'], distinct=d.get('distinct', False))
    print(status, msg)
    return 1 if status == 'violation' else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('arg', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--only', default=None)
    ap.add_argument('--deadline', type=float, default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.cmd == 'check':
        deadline = a.deadline or (600 if a.tier == 'quick' else 3000)
        rc = check(a.arg, a.tier, a.jobs, a.only, deadline, a.v)
        sys.stdout.flush()
        os._exit(rc)
    elif a.cmd == 'list':
        out = {}
        for f in sorted(os.listdir(os.path.join(HERE, 'props'))):
            if f[0] == 'c' and f[1].isdigit() and f.endswith('.py'):
                r = importlib.import_module('props.' + f[:-3]).R
                out[r.prop] = {'assumptions': r.assumptions, 'harnesses': [
                    [h.name, h.bounds, h.quick, h.thorough] for h in r.harnesses]}
        print(json.dumps(out))
    elif a.cmd == 'replay':
        sys.exit(replay(a.arg))


if __name__ == '__main__':
    bootstrap()
    main()
