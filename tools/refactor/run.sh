#!/bin/bash
# run.sh DIFF CHECKS... : apply a behaviour-preserving change to /repo, build, test, run the checks (all must stay quiet), undo
d=$(readlink -f "$1"); shift
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 9; }
git -C /repo apply "$d" || exit 9
bash /opt/vp/build.sh > /dev/null 2>&1; echo "build $?"
for c in "$@"; do python3 "$(dirname "$0")/../check.py" "$c" > /tmp/refactor.$c.log 2>&1; echo "$c $?"; done
git -C /repo checkout -- .
