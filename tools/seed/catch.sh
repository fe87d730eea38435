#!/bin/bash
# catch.sh ID[:PROP...]... : runs the checks of planted bugs against /repo with the bug applied.
here="$(cd "$(dirname "$0")/../.." && pwd)"
for a in "$@"; do
  id=${a%%:*}; props=$(echo "${a#$id}" | tr : ' ')
  [ -n "${props// }" ] || props=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$here/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  for p in $props; do
    s=$(date +%s); out=$("$here/check.sh" $p ${SECS:-45} 2>&1); r=$?; e=$(date +%s)
    echo "$id on $p: exit $r in $((e-s))s: $(echo "$out" | grep -E "^(violation|VIOLATION|fail)" | head -2 | cut -c1-300)"
  done
  git -C /repo checkout -q -- .
done
