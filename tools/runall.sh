#!/bin/bash
# runs every check of the manifest (or those named) in sequence: tools/runall.sh [tier] [props...]
cd "$(dirname "$0")/.."
tier=${1:-quick}; shift
ps=${*:-$(ls -d harness/p[0-9]* | sed 's/.*p\([0-9][0-9]\).*/P\1/' | sort -u)}
for p in $ps; do
  ./check.sh $p -tier $tier > /tmp/out.$p 2>&1; c=$?
  echo "$p exit $c: $(grep -E '^property|VIOLATION|NOT-ENC|KNOWN' /tmp/out.$p | tr '\n' '|')"
done
