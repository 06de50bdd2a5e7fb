#!/bin/bash
# try_planted.sh [ID...]: apply each planted change to /repo, run the check of
# its property (or those named in CHECKS), and undo the change.
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in ${@:-$(ls seeded)}; do
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  for p in ${CHECKS:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}; do
    s=$(date +%s)
    out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $p --tier quick 2>&1); rc=$?
    echo "$id $p exit=$rc $(( $(date +%s) - s ))s $(grep -m1 -E '^VIOLATION' <<<"$out")"
    [ $rc -gt 1 ] && tail -5 <<<"$out"
  done
  git -C /repo checkout -q -- .
done
