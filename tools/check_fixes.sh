#!/bin/bash
# Revert each fix in a scratch clone: its check has to report a violation.
# Usage: tools/check_fixes.sh [COMMIT...]
cd "$(dirname "$0")/.."
grep '^fixed:' known_findings.txt | while read -r _ prop commit what; do
  prop=${prop#property=}
  if [ $# -gt 0 ] && [[ " $* " != *" $commit "* ]]; then continue; fi
  rm -rf /tmp/w_revert
  git clone -q /repo /tmp/w_revert
  if ! git -C /tmp/w_revert revert -n "$commit" > /tmp/revert.log 2>&1; then
    echo "$commit $prop CONFLICT"
  elif OQ_VERIF_REPO=/tmp/w_revert ./check "$prop" > /tmp/revert.out 2>&1
  then
    echo "$commit $prop MISSED $what"
  else
    echo "$commit $prop detected: $(grep -m1 '\[' /tmp/revert.out | cut -c1-60)"
  fi
done
rm -rf /tmp/w_revert
