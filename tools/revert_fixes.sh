#!/bin/bash
# Undoes each fix commit in /repo's working tree in turn and runs the check of its property (development aid).
cd /verif
/opt/venv/bin/python - <<'P' > /tmp/fixlist
import json
for l in json.load(open('/verif/known_findings.json'))['fixed']:
    w=l.split(); print(w[1].split('=')[1], w[2])
P
while read prop commit; do
  git -C /repo show $commit | git -C /repo apply -R || { echo "$prop $commit cannot be undone alone"; continue; }
  out=$(/opt/venv/bin/python mc/check.py $prop quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$prop $commit exit=$rc $(echo "$out" | grep -c ^VIOLATION)"
done < /tmp/fixlist
