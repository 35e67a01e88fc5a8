#!/bin/bash
# seedtest.sh ID [notests] : confirm a planted bug (builds, stable tests, demo) and run its check against it.
ID=$1; S=/verif/seeded/$ID
P=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- . ; bash /opt/vp/build.sh ext >/dev/null 2>&1' EXIT
W=$(mktemp -d /tmp/seed.XXXXXX); cp $S/* $W/; rm -f $W/patch.diff $W/meta.json
bash /opt/vp/build.sh ext >/dev/null 2>&1 || exit 1
timeout 300 bash $W/demo.sh >/tmp/seed.demo0 2>&1; echo "demo unchanged rc=$? (want 0)"
git apply $S/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo BUILD FAILED; tail -5 /tmp/seed.build; exit 1; }
timeout 300 bash $W/demo.sh >/tmp/seed.demo1 2>&1; echo "demo patched rc=$? (want nonzero)"; tail -3 /tmp/seed.demo1
(cd /verif && timeout 900 python3 run.py $P >/tmp/seed.check 2>&1; echo "check $P rc=$? (want 1)"; grep -a VIOLATION /tmp/seed.check | head -3)
if [ "$2" != notests ]; then
 bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1
 python3 - <<'Q'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/seed.json'))['passed'])
print('stable failing:', len(b-p), sorted(b-p)[:5])
Q
fi
rm -rf "$W"
