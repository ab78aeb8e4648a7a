#!/bin/bash
# tools/seedtest.sh <id>: checks that a planted bug counts (in /repo, undone afterwards)
id=$1; d=/verif/seeded/$id
cd /repo; [ -z "$(git status --short)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- . ; git -C /repo clean -fdq' EXIT
if [ "$2" != nobase ]; then
  bash /opt/vp/build.sh >/tmp/sb.log 2>&1
  bash $d/demo.sh >/tmp/demo0.log 2>&1; echo "demo unchanged: $? (want 0)"; tail -2 /tmp/demo0.log
fi
git apply $d/patch.diff || exit 2
bash /tmp/rt.sh
bash $d/demo.sh >/tmp/demo1.log 2>&1; echo "demo patched: $? (want !=0)"; tail -2 /tmp/demo1.log
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ "${NOCHECK:-}" != 1 ] && grep -q "\"$p\"" /verif/MANIFEST.json && { cd /verif; timeout 900 python3 check.py $p quick >/tmp/seedchk.log 2>&1; echo "check $p: $? (want 1)"; tail -3 /tmp/seedchk.log | cut -c1-600; }
