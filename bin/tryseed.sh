#!/bin/bash
# tryseed.sh ID [PROP...] : development aid. Confirms a planted bug (applies, builds, tests pass, demo
# discriminates) and runs the checks of the properties against it. Always restores /repo.
D=/verif/seeded/$1; shift
P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
trap 'git -C /repo checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
cd /repo
if [ -z "$SKIPDEMO" ]; then
bash /opt/vp/build.sh >/tmp/ts.log 2>&1; timeout 300 bash $D/demo.sh >/tmp/ts.demo0 2>&1; echo "demo clean rc=$?"
fi
git apply $D/patch.diff || exit 3
if [ -z "$SKIPDEMO" ]; then
bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.log 2>&1
python3 - <<'P'
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/ts.json'))
print('stable tests missing:', sorted(s-set(r['passed'])))
P
timeout 300 bash $D/demo.sh >/tmp/ts.demo1 2>&1; echo "demo patched rc=$?"; tail -2 /tmp/ts.demo1
fi
for p in $P; do (cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 bin/check.py $p quick; echo "check $p rc=$?"); done
