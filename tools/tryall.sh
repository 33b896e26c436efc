#!/bin/bash
# tryall.sh [prefix]: runs for each planted bug the check of its property, on a scratch copy.
cd "$(dirname "$0")/.."
for i in seeded/$1*; do
  p=$(python3 -c "import json;print(json.load(open('$i/meta.json'))['property'])")
  s=$(date +%s)
  r=$(tools/tryseed.sh $i/patch.diff $p 2>&1)
  echo "$(basename $i) $p $(echo "$r" | grep -o 'VIOLATION.*' | grep -o 'no-failing-input-found' || (echo "$r" | grep -q VIOLATION && echo caught || echo MISSED)) $(( $(date +%s) - s ))s"
done
