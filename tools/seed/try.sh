#!/bin/bash
export DEMO_TARGET=/tmp/w/target
# try.sh ID: applies the planted bug to /repo, builds, tests, runs its demonstration and its property's check, and undoes it.
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cp /verif/tools/seed/demo.sh /verif/tools/seed/mkcrate.py $S/
cd /repo; [ -z "$(git status --porcelain)" ] || { echo dirty; exit 1; }
[ -n "$2" ] || { bash $S/demo.sh > /tmp/demo.$1.good 2>&1; echo "demo unchanged: $?"; }
git apply $S/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh > /tmp/try.$1.build 2>&1; echo "build: $?"
bash /opt/vp/test.sh /tmp/try.$1.json > /tmp/try.$1.test 2>&1; tail -1 /tmp/try.$1.test; grep "test result" /tmp/try.$1.test | head -3
[ -n "$2" ] || { bash $S/demo.sh > /tmp/demo.$1.bad 2>&1; echo "demo patched: $?"; tail -3 /tmp/demo.$1.bad; }
cd /verif; python3 tools/check.py $P --tier quick > /tmp/try.$1.check 2>&1; echo "check $P: $?"; tail -3 /tmp/try.$1.check
