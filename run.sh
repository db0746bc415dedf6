#!/bin/bash
# run.sh ID [replay FILE] - builds the harness against /repo's working tree and
# decides property ID. Everything it builds or writes lives in a scratch
# directory, except evidence/ID.json and (on a violation) replays/ID.json.
set -u
ID=${1:?usage: run.sh ID [replay FILE]}
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS="-mod=readonly -buildvcs=false"
unset GODEBUG GOMAXPROCS GOGC GOMEMLIMIT GOENV GOTRACEBACK GORACE
export HOME="${HOME:-/root}"
work=$(mktemp -d "${TMPDIR:-/tmp}/verif-$ID-XXXXXX") || exit 2
chmod 755 "$work"
trap 'chmod -R u+rwX "$work" 2>/dev/null; rm -rf "$work"' EXIT
trap 'exit 2' INT TERM HUP
export VH_WORK="$work" VH_CLI="$work/mustache"

build() { # build DIR OUT ARGS...
  local dir=$1 out=$2; shift 2
  if ! (cd "$dir" && go build -o "$out" "$@") >"$work/build.log" 2>&1; then
    echo "ERROR property=$ID build failed in $dir" >&2
    head -c 4000 "$work/build.log" >&2
    exit 2
  fi
}

race=()
if [ "$ID" = C25 ]; then
  race=(-race)
  export GORACE="halt_on_error=1 exitcode=66"
fi
build "$VERIF_DIR/harness" "$work/vh" "${race[@]}" .
case "$ID" in
C19|C20|C21|C22|C23|C30|C33) build /repo "$work/mustache" ./cmd/mustache ;;
esac
if [ "${2:-}" = replay ]; then
  "$work/vh" replay "$ID" "$3"
else
  "$work/vh" check "$ID"
fi
