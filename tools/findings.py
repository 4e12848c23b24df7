"""writes known_findings.txt from the fix: commits of /repo and tools/findings_map.txt (commit -> property)"""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {}
for l in open(os.path.join(HERE, 'tools', 'findings_map.txt')):
    if l.strip():
        p, commits = l.split(':')
        for c in commits.split():
            m[c] = p.strip()
out = ['# Defects of the base tree found by the checks. "fixed:" entries were repaired by a fix: commit in /repo and',
       '# suppress nothing. An unrepaired one would be listed as "finding: property=<id> key=<key> <what fails>".']
rest = []
for l in reversed(subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()):
    c, s = l.split(' ', 1)
    if s.startswith('fix: '):
        if c not in m:
            rest.append(l)
        else:
            out.append('fixed: property=%s %s repaired: %s' % (m[c], c, s[5:]))
assert not rest, rest
extra = os.path.join(HERE, 'tools', 'findings_extra.txt')
if os.path.exists(extra):
    out += open(extra).read().splitlines()
open(os.path.join(HERE, 'known_findings.txt'), 'w').write('\n'.join(out) + '\n')
