#!/bin/bash
# tries one planted change: builds, tests, demo with and without it, and the check of its property. usage: seed_try.sh ID [check...]
id=$1; shift
d=/verif/seeded/$id
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
if [ "${SKIP_BASE:-0}" = 0 ]; then bash $d/demo.sh >/tmp/seed_demo0.log 2>&1; echo "demo on the unchanged tree: $?"; fi
git apply $d/patch.diff || exit 1
if [ "${SKIP_BASE:-0}" = 0 ]; then
  bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || { echo "does not build"; tail -5 /tmp/seed_build.log; exit 1; }
  bash /opt/vp/test.sh /tmp/seed_t.json >/dev/null 2>&1
  python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/seed_t.json'));m=set(b['stable'])-set(t['passed']);print('stable tests failing with the change:',len(m),list(m)[:3])"
  bash $d/demo.sh >/tmp/seed_demo1.log 2>&1; echo "demo with the change: $?"; tail -2 /tmp/seed_demo1.log
fi
cd /verif
for c in ${@:-$prop}; do timeout 900 python3 check.py $c 2>&1 | grep -v KNOWN | cut -c1-400; done
undo
[ "${SKIP_BASE:-0}" = 0 ] && bash /opt/vp/build.sh >/dev/null 2>&1
exit 0
