#!/bin/bash
# runs all checks (or those in CHECKS) against scratch copies of /repo with a behaviour-preserving edit each:
# tools/runrefactor.sh [name-prefix...]; results in /tmp/ref.<name>
cd "$(dirname "$0")/.."
all=$(python3 -c "import json;print(' '.join(c['property'] if 'property' in c else c['id'] for c in json.load(open('MANIFEST.json'))['checks']))" 2>/dev/null || seq -f P%02g 1 30)
names=$(cd tools/refactor; ls *.diff)
[ $# -gt 0 ] && names=$(cd tools/refactor; for a in "$@"; do ls | grep "^$a"; done)
for n in $names; do
  w=$(mktemp -d /tmp/wf.XXXXXX)
  cp -a /repo/. $w/
  git -C $w checkout -q -- . && git -C $w apply /verif/tools/refactor/$n || { echo "$n: patch does not apply"; rm -rf "$w"; continue; }
  o=/tmp/ref.${n%.diff}; : > $o; bad=""
  for p in ${CHECKS:-$all}; do
    s=$(date +%s)
    VERIF_REPO=$w ./check.sh $p -noevidence > $o.$p 2>&1; c=$?
    echo "$p exit $c $(( $(date +%s)-s ))s $(grep -E '^property' $o.$p)" >> $o
    [ $c = 0 ] || bad="$bad $p"
  done
  echo "$n:${bad:- quiet} $(grep -vc ' 0 incomplete' $o) incomplete"
  rm -rf "$w"
done
