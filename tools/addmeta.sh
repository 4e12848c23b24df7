#!/bin/sh
# tools/addmeta.sh FILE: append property texts to props/meta.py and regenerate
cd "$(dirname "$0")/.." && python3 - "$1" <<'P' && python3 tools/gen.py && python3 tools/findings.py
import sys
p='props/meta.py'; s=open(p).read()
s=s.replace("\nNOT_APPLICABLE = [", open(sys.argv[1]).read()+"\nNOT_APPLICABLE = ["); open(p,'w').write(s)
P
