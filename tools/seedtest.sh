#!/bin/bash
# tools/seedtest.sh [--all-props] [ID...]: apply each planted change to /repo, run the check of its
# property (or every check), undo it. Development helper; no check uses it.
cd "$(dirname "$0")/.." || exit 1
all=; if [ "$1" = --all-props ]; then all=1; shift; fi
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "${ids[@]}"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  props=$prop; [ -n "$all" ] && props=$(python3 -c "import json;print(' '.join(c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id APPLY FAILED"; continue; }
  out=""
  for p in $props; do
    r=$(VERIF_SEED=1 timeout 900 python3 check.py run $p quick 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" <<<"$r"; then out="$out $p"; elif [ $rc != 0 ]; then out="$out $p(rc=$rc)"; fi
  done
  git -C /repo checkout -q -- .
  if grep -qw "$prop" <<<"$out"; then echo "CAUGHT $id [$prop]:$out"; else echo "MISSED $id [$prop]:$out"; fi
done
