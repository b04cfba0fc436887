#!/bin/bash
# run_all.sh [quick|thorough] [ids...]: every check, one after another
cd "$(dirname "$0")/.."
tier=${1:-quick}; shift
ids=${@:-$(seq -f C%02g 1 23)}
for id in $ids; do
  s=$(date +%s.%N)
  out=$(timeout 3600 /opt/venv/bin/python mc/check.py $id $tier 2>&1); rc=$?
  echo "$id $tier rc=$rc $(echo "$(date +%s.%N)-$s" | bc) $(echo "$out" | tail -1)"
  if [ $rc != 0 ]; then echo "$out" | tail -12 | cut -c1-600; fi
done
