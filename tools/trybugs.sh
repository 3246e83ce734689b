#!/bin/bash
# tools/trybugs.sh [ID...]: run each planted bug's check on a scratch copy of /repo (development only)
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  W=$(mktemp -d /tmp/try.XXXXXX); cp -a /repo/. $W/ ; rm -rf $W/target
  (cd $W && git checkout -q -- . && git apply /verif/seeded/$i/patch.diff) || echo "patch failed"
  BUTTE_REPO=$W BUTTE_EVIDENCE=$W/ev python3 check.py $P quick > $W/log 2>&1; c=$?
  echo "== $i $P exit=$c $(grep -c VIOLATION $W/log)  $(grep -E 'VIOLATION|no-failing' $W/log | sed 's/replay=[^ ]*//')  | $(grep -E 'observed:|UNDECIDED|NOTE' $W/log | head -3 | cut -c1-200 | tr '\n' ' ') | failed: $(sed -n '/failed obligations/,$p' $W/ev/replays/$P.txt 2>/dev/null | grep -E '^  [a-z_]+::|^  prop' | cut -c1-120 | sort -u | head -4 | tr '\n' ';') | $(tail -1 $W/log | cut -c1-200)"
  rm -rf $W
done
