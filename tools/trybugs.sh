#!/bin/bash
# trybugs.sh [ID ...]: runs, for each planted bug, the check of its property
# against a scratch copy of /repo with the bug applied (development aid).
cd "$(dirname "$0")/.." || exit 1
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' seeded/$id/meta.json)
  s=/tmp/trybug-$id
  rm -rf "/tmp/trybug-$id"; cp -a /repo $s
  if ! git -C $s apply "$PWD/seeded/$id/patch.diff"; then echo "$id: patch does not apply"; continue; fi
  out=$(SIM_REPO=$s ./check ${CHECK:-$p} --no-evidence 2>&1)
  if grep -q "^VIOLATION property=${CHECK:-$p} " <<<"$out"; then
    echo "CAUGHT $id by ${CHECK:-$p}: $(grep -m1 '^violation class' <<<"$out") | $(grep 'minimised with' <<<"$out" | tr -s ' ') | $(tail -1 <<<"$out")"
  else
    echo "MISSED $id by ${CHECK:-$p}: $(tail -2 <<<"$out" | tr '\n' ' ')"
  fi
  rm -rf "/tmp/trybug-$id"
done
