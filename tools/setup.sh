#!/bin/bash
# nothing to build: the checks are Python, run with the interpreter satella is installed for; z3 comes from the
# tooling venv.  This only verifies that both are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence replays
/opt/venv/bin/python - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
s = z3.Solver(); x = z3.Int('x'); s.add(x > 1, x < 3); assert s.check() == z3.sat
print('z3', z3.get_version_string())
P
