#!/bin/bash
# replay.sh FILE: builds the simulator from /repo and plays a replay file.
# Exit 1 and a VIOLATION line when the violation appears, 0 when it does not.
set -u
here=$(cd "$(dirname "$0")" && pwd)
f=$(readlink -f "$1")
prop=$(sed -n 's/^ "property": "\(.*\)",$/\1/p' "$f" | head -1)
bd=$(sed -n 's/^ "build": "\(.*\)",$/\1/p' "$f" | head -1)
B=$(mktemp -d "${TMPDIR:-/tmp}/simverif-build.XXXXXX") || exit 2
trap '/bin/rm -rf -- "$B"' EXIT
[ "$prop" = C19 ] && bd=C19 # has the command line tool in it
. "$here/build.sh" "$B" "$bd" || { echo "build failed" >&2; exit 2; }
exe=$B/harness
[ "$bd" = race ] && exe=$B/harness-race
export TMPDIR=$B GOTRACEBACK=single
GORACE="suppress_equal_stacks=0 suppress_equal_addresses=0 halt_on_error=0 exitcode=0 history_size=4 log_path=$B/race" \
  SIMRACELOG=$B/race "$exe" replay "$f"
