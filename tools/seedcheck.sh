#!/bin/bash
# usage: seedcheck.sh NAME... — for each seeded change: demo on the unchanged
# tree, then in a scratch copy of /repo with the change: build, stable tests,
# demo; then the property's check against /repo with the change applied.
# Needs a clean /repo; restores it.  SKIP=tests,demo skips parts.
for n in "$@"; do
  d=/verif/seeded/$n
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
  r=""
  if [[ ",$SKIP," != *,demo,* ]]; then
    (cd /repo && bash $d/demo.sh >/tmp/seed.$n.demo0 2>&1); r="$r demo0=$?"
  fi
  git -C /repo apply $d/patch.diff || { echo "$n: patch does not apply"; continue; }
  if [[ ",$SKIP," != *,tests,* ]]; then
    bash /opt/vp/build.sh >/tmp/seed.$n.build 2>&1; r="$r build=$?"
    bash /opt/vp/test.sh /tmp/seed.$n.json >/dev/null 2>&1; python3 /verif/tools/stable.py /tmp/seed.$n.json >/tmp/seed.$n.st; r="$r stable=$?"
  fi
  if [[ ",$SKIP," != *,demo,* ]]; then
    (cd /repo && bash $d/demo.sh >/tmp/seed.$n.demo1 2>&1); r="$r demo1=$?"
  fi
  t0=$(date +%s)
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./run.sh check $prop >/tmp/seed.$n.check 2>&1); c=$?
  v=$(grep -c "^VIOLATION property=$prop " /tmp/seed.$n.check)
  git -C /repo checkout -- .
  echo "$n [$prop]$r check=$c violation-lines=$v $(( $(date +%s)-t0 ))s: $(grep -m1 '^violation:' /tmp/seed.$n.check)"
done
