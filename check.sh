#!/bin/bash
# check.sh PROPERTY [extra arguments of "harness run"]
# Builds the simulator from /repo's current working tree and searches for a
# violation of one property. Exit 0: held; 1: VIOLATION line; 2: trouble.
# Settings: VERIF_SEED, VERIF_TIER (quick or thorough), REPO (default /repo).
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; shift
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
t0=$(date +%s.%N)
B=$(mktemp -d "${TMPDIR:-/tmp}/simverif-build.XXXXXX") || exit 2
trap '/bin/rm -rf -- "$B"' EXIT
. "$here/build.sh" "$B" "$prop" || { echo "build failed" >&2; exit 2; }
t1=$(date +%s.%N)
race=()
[ -x "$B/harness-race" ] && race=(-race "$B/harness-race")
mkdir -p "$B/work" "$here/evidence"
"$B/harness" run -prop "$prop" -tier "$VERIF_TIER" -seed "$VERIF_SEED" "${race[@]}" \
  -dir "$B/work" -replays "$here/replays" -evidence "$here/evidence/$prop.json" \
  -sites "$B/ov/sites.json" -buildsecs "$(echo "$t1 - $t0" | bc 2>/dev/null || echo 0)" "$@"
