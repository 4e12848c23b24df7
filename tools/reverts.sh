#!/bin/bash
# usage: tools/reverts.sh CHECK HASH...  runs a check with each fix commit of /repo undone (in turn); it has to fail
check=$1; shift
cd /verif
for h in "$@"; do
  if git -C /repo revert --no-commit "$h" >/dev/null 2>&1; then
    out=$(timeout 900 ./run.py check "$check" 2>&1 | grep -m1 VIOLATION)
    echo "$h ${out:-MISSED} | $(git -C /repo log -1 --format=%s "$h")"
  else
    echo "$h does not revert cleanly"
  fi
  git -C /repo revert --abort >/dev/null 2>&1; git -C /repo reset -q --hard HEAD
done
