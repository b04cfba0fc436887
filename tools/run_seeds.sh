#!/bin/bash
# run_seeds.sh [ids]: each planted bug against the check of its property (in scratch copies, 4 at a time)
cd "$(dirname "$0")/.."
ids=${@:-$(ls seeded)}
one() {
  id=$1; wt=/tmp/rs/$id; mkdir -p /tmp/rs; rm -rf $wt; cp -a /repo $wt; git -C $wt checkout -q -- .
  git -C $wt apply /verif/seeded/$id/patch.diff || echo "$id: patch does not apply"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  for c in ${CHECKS:-$p}; do
    out=$(VERIF_REPO=$wt VERIF_EVIDENCE=/tmp/rs/ev-$id /opt/venv/bin/python mc/check.py $c quick 2>&1); rc=$?
    echo "$id $p check $c rc=$rc $(echo "$out" | grep -m1 "^$c: " | cut -c1-200)"
  done
  rm -rf $wt /tmp/rs/ev-$id
}
export -f one
printf '%s\n' $ids | xargs -P 3 -I{} bash -c 'one {}'
