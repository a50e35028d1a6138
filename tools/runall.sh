#!/bin/bash
# every registered check, in parallel: tools/runall.sh [IDs...]
cd "$(dirname "$0")/.."
ids=${*:-$(python3 -c 'from sa.rules import TABLE; print(*sorted(TABLE))')}
t=$(mktemp -d)
for i in $ids; do
  (s=$(date +%s); python3 check.py $i $FLAGS > $t/$i 2>&1; echo "$i rc=$? $(( $(date +%s)-s ))s $(tail -1 $t/$i)") &
  [ $(jobs -r | wc -l) -ge 7 ] && wait -n
done
wait
rm -rf "$t"
