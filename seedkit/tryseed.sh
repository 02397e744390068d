#!/bin/bash
# tryseed.sh ID : applies seeded/ID/patch.diff to /repo, tests, demo, optionally the check; undoes it
ID=$1; shift
cd /repo
S=/verif/seeded/$ID
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo repo dirty; exit 1; }
git apply $S/patch.diff || exit 1
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/seed_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/seed_test.json > /tmp/seed_test.log 2>&1
python3 - <<'P'
import json
r=json.load(open('/tmp/seed_test.json')); print('tests passed',len(r['passed']),'failed',len(r['failed']))
P
T0=$SECONDS
(cd /repo; timeout 300 bash $S/demo.sh > /tmp/seed_demo.log 2>&1); echo "demo with patch rc=$? ($((SECONDS-T0))s)"; tail -4 /tmp/seed_demo.log
for P in "$@"; do
  timeout 900 python3 /verif/checks/$P.py > /tmp/seed_check.log 2>&1; echo "check $P rc=$?"; grep -m2 -E "VIOLATION|key=" /tmp/seed_check.log | cut -c1-300; tail -1 /tmp/seed_check.log
done
