#!/bin/bash
# check.sh PROPERTY [SEARCH_SECONDS] : builds the simulator from /repo's working
# tree and searches the schedules and fault sequences of one property.
# check.sh replay FILE : runs a recorded violation again.
# Exit 0: held, 1: violation, anything else: no answer.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
cd "$here" || exit 3
export CGO_ENABLED=0 GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOWORK=off
mkdir -p .build replays evidence || exit 3
exec 9>.build/lock; flock 9
export GOCACHE="$here/.build/gocache"
t0=$(date +%s.%N)
B="$here/.build"
(cd tools/mkoverlay && go build -o "$B/mkoverlay" .) || { echo "build of mkoverlay failed"; exit 3; }
(cd sim && go build -o "$B/orch" ./orch) || { echo "build of the orchestrator failed"; exit 3; }
note="every statement of bond, bloom and bitset is a scheduling point; persistentBatchSize, ReindexBatchSize and exportFileSize are built small"
build() { # overlay flags
    rm -rf "$B/ov"
    "$B/mkoverlay" -std tools/mkoverlay/std -out "$B/ov" "$@" >"$B/mkoverlay.log" 2>&1 || { cat "$B/mkoverlay.log"; return 1; }
    (cd sim && go build -overlay "$B/ov/overlay.json" -tags faketime -o "$B/bondsim" .) >"$B/build.log" 2>&1
}
if ! build && ! build -nodyn; then
    echo "note: the instrumented build failed, building without statement-level scheduling points"
    head -20 "$B/build.log"
    note="not instrumented: the instrumented build failed"
    build -noinst || { echo "build failed"; tail -20 "$B/build.log"; exit 3; }
fi
cp "$B/bondsim" "$B/bondsim.$$"; cp "$B/orch" "$B/orch.$$"; cp "$B/ov/points.txt" "$B/points.$$"
flock -u 9; exec 9>&-
trap 'rm -f "$B/bondsim.$$" "$B/orch.$$" "$B/points.$$"' EXIT
t1=$(date +%s.%N)
if [ "$1" = replay ]; then
    "$B/orch.$$" -bin "$B/bondsim.$$" -replay "$2"
    exit $?
fi
"$B/orch.$$" -bin "$B/bondsim.$$" -prop "$1" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -budget "${2:-40}s" \
    -evidence "$here/evidence/$1.json" -known "$here/known_findings.txt" -replays "$here/replays" \
    -builds "$(echo "$t1 $t0" | awk '{print $1-$2}')" -points "$B/points.$$" -instrumented "$note"
