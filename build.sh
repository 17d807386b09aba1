# Sourced: build.sh OUTDIR PROPERTY|race|plain
# Builds OUTDIR/harness, and OUTDIR/harness-race for the properties that have
# several callers at once, from the working tree in ${REPO:-/repo}.
_build() {
  local out=$1 what=$2 repo=${REPO:-/repo} sim
  sim=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)/sim
  [ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
  export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOWORK=off
  mkdir -p "$out/ov"
  local tool= tags=
  [ "$what" = C19 ] && tool="-tool $sim/tool" tags="-tags tool"
  (
    cd "$sim" &&
    go build -o "$out/instr" ./instr &&
    "$out/instr" -repo "$repo" -as /repo $tool -out "$out/ov"
  ) || return 1
  case $what in
  C11|C12|C13|C14|race)
    (
      cd "$sim" &&
      sed 's#^{"Replace":{#{"Replace":{"'"$(go env GOROOT)"'/src/sync/pool.go":"'"$sim"'/stdover/pool.go.txt",#' "$out/ov/overlay.json" > "$out/ov/race.json" &&
      go build -race -gcflags='compress/flate=-race=false' -gcflags='hash/crc32=-race=false' \
        -gcflags='image/...=-race=false' -gcflags='crypto/...=-race=false' \
        -overlay "$out/ov/race.json" -o "$out/harness-race" ./harness
    ) & ;;
  esac
  ( cd "$sim" && go build $tags -overlay "$out/ov/overlay.json" -o "$out/harness" ./harness ) || { wait; return 1; }
  wait
  case $what in
  C11|C12|C13|C14|race) [ -x "$out/harness-race" ] || return 1 ;;
  esac
}
_build "$@"
