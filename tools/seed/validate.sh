#!/bin/bash
# validate.sh ID... : confirms planted bugs in a scratch copy of /repo: builds,
# passes the stable tests, demo 0 without and nonzero with the patch.
. /opt/vp/env.sh >/dev/null 2>&1
here="$(cd "$(dirname "$0")/../../seeded" && pwd)"
for id in "$@"; do
  d=$here/$id; w=$(mktemp -d /tmp/seedval.XXXX)
  cp -a /repo "$w/repo"; cp -a "$d" "$w/demo"; rm -f "$w/demo"/*.diff "$w/demo/meta.json"
  cd "$w/repo" || exit 1
  git checkout -q -- . ; git apply --check "$d/patch.diff" || { echo "$id: does not apply"; rm -rf "$w"; continue; }
  timeout 300 bash "$w/demo/demo.sh" >"$w/clean.log" 2>&1; a=$?
  git apply "$d/patch.diff"
  go build ./... >"$w/build.log" 2>&1 || { echo "$id: does not build"; cat "$w/build.log"; rm -rf "$w"; continue; }
  timeout 300 bash "$w/demo/demo.sh" >"$w/bug.log" 2>&1; b=$?
  t=0; for i in 1 2; do go test ./... >"$w/test.log" 2>&1 || t=1; done
  echo "$id: demo clean=$a patched=$b tests=$t"
  [ $a = 0 ] || tail -20 "$w/clean.log"
  [ $b != 0 ] || tail -5 "$w/bug.log"
  [ $t = 0 ] || grep -E "^(---|FAIL|ok)|Error" "$w/test.log" | head -20
  grep -hE "^    .*_test.go|panic:" "$w/bug.log" | head -3
  rm -rf "$w"
done
