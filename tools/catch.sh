#!/bin/bash
# catch.sh ID...: run the property's check against each planted change.
V="$(cd "$(dirname "$0")/.." && pwd)"
[ $# = 0 ] && set -- $(ls "$V/seeded")
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
for id in "$@"; do
  S="$V/seeded/$id"
  P=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
  git -C /repo apply "$S/patch.diff" || { echo "$id: does not apply"; continue; }
  O=$("$V/check.sh" "$P" quick 2>/tmp/catch.err); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $P rc=$rc $(grep -E '^VIOLATION|^OK' <<<"$O" | head -1) :: $(grep -m1 -h 'FAILING-INPUT' "$V/replays/$P.txt" 2>/dev/null | cut -c1-140)"
  [ $rc = 0 ] || grep '^failed obligation' /tmp/catch.err <<<"$O" | head -2 | sed 's/^/    /'
done
