#!/opt/venv/bin/python
"""
Mutation testing of the checks: tools/mutate.py CHECK [--max N] [--seed S] [--workers W]

Changes single expressions and statements of the functions that a check has encoded (as its evidence tells), in scratch copies
of /repo, and runs the check on each of them. Prints the changes that went unnoticed, for a human to judge: some of them change
nothing that the property speaks of.
"""
import argparse
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def seg(lines, node):
    assert node.lineno == node.end_lineno or True
    return (node.lineno - 1, node.col_offset), (node.end_lineno - 1, node.end_col_offset)


def replace(src, node, text):
    blines = src.encode('utf8').splitlines(keepends=True)
    (l0, c0), (l1, c1) = seg(blines, node)
    head = b''.join(blines[:l0]) + blines[l0][:c0]
    tail = blines[l1][c1:] + b''.join(blines[l1 + 1:])
    return (head + text.encode('utf8') + tail).decode('utf8')


def is_doc(node):
    return isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant) and isinstance(node.value.value, str)


CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not',
       ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '*', ast.BitOr: '&', ast.BitAnd: '|'}


def mutants_of(src, node):
    """yields (node, text, description)"""
    u = ast.unparse
    for n in ast.walk(node):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            yield n, '(%s %s %s)' % (u(n.left), CMP[type(n.ops[0])], u(n.comparators[0]))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (
                isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            yield n, '(%s %s %s)' % (u(n.left), BIN[type(n.op)], u(n.right))
        elif isinstance(n, ast.BoolOp):
            yield n, '(' + (' or ' if isinstance(n.op, ast.And) else ' and ').join('(%s)' % u(v) for v in n.values) + ')'
            for i in range(len(n.values)):
                rest = n.values[:i] + n.values[i + 1:]
                yield n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % u(v) for v in rest) + ')'
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield n, '(%s)' % u(n.operand)
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            yield n, str(n.value + 1)
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            yield n, str(not n.value)
        elif isinstance(n, ast.If):
            yield n.test, '(not (%s))' % u(n.test)
            if not n.orelse:
                yield n.test, 'False'
                yield n.test, 'True'
        elif isinstance(n, ast.IfExp):
            yield n, '(%s)' % u(n.body)
            yield n, '(%s)' % u(n.orelse)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'any', 'all'):
            yield n.func, {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any'}[n.func.id]
        elif isinstance(n, (ast.Break, )):
            yield n, 'continue'
        elif isinstance(n, ast.Continue):
            yield n, 'break'
        elif isinstance(n, ast.Return) and n.value is not None and not (
                isinstance(n.value, ast.Constant) and n.value.value is None):
            yield n, 'return None'
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)) and not is_doc(n):
            yield n, 'pass'
        elif isinstance(n, ast.With) and False:
            pass
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            yield n.type, 'ZeroDivisionError'
        elif isinstance(n, ast.Try) and n.finalbody:
            for st in n.finalbody:
                pass


def functions_of(tree):
    out = []

    def rec(node, prefix):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append(('.'.join(prefix + [c.name]), c))
                rec(c, prefix + [c.name])
            elif isinstance(c, ast.ClassDef):
                rec(c, prefix + [c.name])
            else:
                rec(c, prefix)
    rec(tree, [])
    return out


def collect(check):
    ev = json.load(open(os.path.join(HERE, 'evidence', check + '.json')))
    wanted = {}
    for f in ev['coverage']['functions_encoded']:
        path, _, name = f.partition(':')
        if path.endswith('.py'):
            wanted.setdefault(path, set()).add(name.replace('.<locals>', ''))
    import sys
    sys.path.insert(0, HERE)
    from props import meta
    files = None
    for p in meta.P:
        if p['id'] == check:
            files = p['anchors']['files']
    out = []
    for path, names in wanted.items():
        if files and not any(path.startswith(f) or f.startswith(path) for f in files):
            continue
        src = open(os.path.join(REPO, path), newline='').read()
        if '\r\n' in src:
            src = src.replace('\r\n', '\n')
        tree = ast.parse(src)
        for name, fn in functions_of(tree):
            if name not in names:
                continue
            nested = {id(x) for _, g in functions_of(fn) for x in ast.walk(g)}
            for node, text in mutants_of(src, ast.Module(body=fn.body, type_ignores=[])):
                if id(node) in nested:
                    continue
                new = replace(src, node, text)
                try:
                    compile(new, path, 'exec')
                except SyntaxError:
                    continue
                old = ast.get_source_segment(src, node)
                out.append((path, name, node.lineno, old, text, new))
    return out


def run(args):
    check, jobs, (path, name, line, old, text, new), limit = args
    d = tempfile.mkdtemp(prefix='verif-mut-')
    try:
        shutil.copytree(REPO + '/satella', d + '/satella', ignore=shutil.ignore_patterns('__pycache__'))
        with open(os.path.join(d, path), 'w', newline='') as f:
            f.write(new)
        env = dict(os.environ, VERIF_REPO=d, VERIF_NOEVIDENCE='1', VERIF_REPLAYS=d)
        try:
            p = subprocess.run([HERE + '/run.py', 'check', check, '--jobs', str(jobs)], env=env, timeout=limit,
                               capture_output=True, text=True)
            if p.returncode == 1 and 'VIOLATION' in p.stdout:
                return 'caught', ''
            if p.returncode == 0:
                return 'MISSED', ''
            return 'no answer', (p.stdout + p.stderr)[-300:]
        except subprocess.TimeoutExpired:
            return 'timeout', ''
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('checks', nargs='+')
    ap.add_argument('--max', type=int, default=40)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--workers', type=int, default=4)
    ap.add_argument('--jobs', type=int, default=1)
    ap.add_argument('--limit', type=int, default=300)
    a = ap.parse_args()
    for check in a.checks:
        ms = collect(check)
        total = len(ms)
        random.Random(a.seed).shuffle(ms)
        ms = ms[:a.max]
        counts = {}
        with concurrent.futures.ThreadPoolExecutor(a.workers) as ex:
            for m, (r, info) in zip(ms, ex.map(run, [(check, a.jobs, m, a.limit) for m in ms])):
                counts[r] = counts.get(r, 0) + 1
                if r != 'caught':
                    print('%s %s %s:%s %s | %s -> %s %s' % (check, r, m[0], m[2], m[1], m[3].replace('\n', '\\n')[:150], m[4][:100], info.replace('\n', ' ')), flush=True)
        print('== %s: %s of %s mutants: %s' % (check, len(ms), total, counts), flush=True)


main()
