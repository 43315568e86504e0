#!/bin/bash
# plant.sh ID [checks...]: confirm a planted bug (build, stable tests, demo) in /repo, run checks on it, undo.
D=/verif/seeded/$1; shift
cd /repo || exit 1
git diff --quiet || { echo "/repo is dirty"; exit 1; }
echo "== demo on clean"; bash $D/demo.sh >/tmp/demo0.log 2>&1; r=$?; [ $r = 0 ] || { echo "DEMO FAILS CLEAN"; tail -20 /tmp/demo0.log; }
git apply $D/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILS; tail /tmp/b.log; exit 1; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=set(json.load(open('/tmp/o.json'))['passed'])
m=[x for x in b if x not in o]; print('stable tests missing:',m)
P
fi
bash $D/demo.sh >/tmp/demo1.log 2>&1; r=$?; [ $r = 0 ] && echo "DEMO PASSES WITH BUG" || { echo "demo fails as it should ($r)"; grep -m3 -E "FAIL|panic|demo" /tmp/demo1.log; }
for c in "$@"; do PATH=/opt/veriftools/go1.23.12/bin:$PATH /verif/analyzer/bin/an -check $c | cut -c1-220; done
