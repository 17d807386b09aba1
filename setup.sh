#!/bin/bash
# Builds the simulator once, to see that it builds (and to fill go's cache
# where that survives). Every check builds it again from /repo.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
B=$(mktemp -d "${TMPDIR:-/tmp}/simverif-build.XXXXXX")
trap '/bin/rm -rf -- "$B"' EXIT
. "$here/build.sh" "$B" race
"$B/harness" plan -prop C01 > /dev/null
echo built
