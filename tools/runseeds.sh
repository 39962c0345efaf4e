#!/bin/bash
# runs the check of each seeded change's property (or CHECK=Pxx) against a scratch copy of /repo with the change:
# tools/runseeds.sh [id-prefix...]
cd "$(dirname "$0")/.."
ids=$(ls seeded)
[ $# -gt 0 ] && ids=$(for a in "$@"; do ls seeded | grep "^$a"; done)
for i in $ids; do
  w=$(mktemp -d /tmp/ws.XXXXXX)
  cp -a /repo/. $w/
  git -C $w checkout -q -- . && git -C $w apply /verif/seeded/$i/patch.diff || { echo "$i: patch does not apply"; continue; }
  p=${CHECK:-$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")}
  s=$(date +%s)
  VERIF_REPO=$w ./check.sh $p -noevidence > /tmp/seed.$i 2>&1; c=$?
  echo "$i $p exit $c $(( $(date +%s)-s ))s: $(grep -m1 -E '^VIOLATION' /tmp/seed.$i)"
  rm -rf "$w"
done
