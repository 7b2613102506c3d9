#!/bin/bash
# development aid: confirm a planted change (plant.sh <id> [check...]); uses /repo's working tree and restores it
id=$1; shift; d=/verif/seeded/$id
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "clean build failed"; exit 2; }
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo.clean 2>&1); echo "demo clean: $? (want 0)"
git -C /repo apply $d/patch.diff || { echo "does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/plant.build 2>&1 || { echo "patched build FAILED"; tail -5 /tmp/plant.build; exit 2; }
bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1; python3 -c "
import json;d=json.load(open('/tmp/plant.json'));print('tests:',{k:(len(v) if hasattr(v,'__len__') else v) for k,v in d.items()})"
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo.patched 2>&1); echo "demo patched: $? (want nonzero)"; tail -2 /tmp/demo.patched
for c in "$@"; do (cd /verif && VERIF_SEED=1 python3 check.py $c quick 2>&1 | grep -E "VIOLATION|KNOWN|quiet|held|ERROR" | head -3; echo "check $c: ${PIPESTATUS[0]}"); done
