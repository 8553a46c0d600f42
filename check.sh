#!/bin/bash
# check.sh <property> <quick|thorough> [--seed N] [--case K] [more vmon flags]
# Builds the monitor against /repo's current working tree and runs it.
set -u
ID="$1"; TIER="${2:-quick}"; shift 2
SEED="${VERIF_SEED:-1}"
EXTRA=()
while [ $# -gt 0 ]; do
  case "$1" in
    --seed) SEED="$2"; shift 2;;
    --case) EXTRA+=(-case "$2"); shift 2;;
    *) EXTRA+=("$1"); shift;;
  esac
done
HERE="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=1
WORK="$(mktemp -d /tmp/vmon.XXXXXX)" || exit 2
trap 'rm -rf -- "$WORK"' EXIT
# go may rewrite go.mod/go.sum: work on copies
cp "$HERE/harness/go.mod" "$WORK/go.mod" && cp "$HERE/harness/go.sum" "$WORK/go.sum" || exit 2
build() { # out, extra flags
  (cd "$HERE/harness" && go build -modfile="$WORK/go.mod" "${@:2}" -o "$1" ./cmd/vmon) 2>"$WORK/build.log"
}
FLAGS=()
case "$ID" in C20) FLAGS=(-race);; esac
if ! build "$WORK/vmon" "${FLAGS[@]}"; then
  cat "$WORK/build.log" >&2
  echo "check.sh: the monitor does not build against /repo" >&2
  exit 2
fi
case "$ID" in C22|C24|C25|C27)
  cp /repo/go.mod "$WORK/repo.mod" && cp /repo/go.sum "$WORK/repo.sum" || exit 2
  OV=()
  if [ ! -e /repo/docs ]; then # generated, not in git: the tool only imports it
    echo 'package docs' > "$WORK/docs.go"
    echo '{"Replace": {"/repo/docs/docs.go": "'"$WORK"'/docs.go"}}' > "$WORK/overlay.json"
    OV=(-overlay "$WORK/overlay.json")
  fi
  if ! (cd /repo && go build "${OV[@]}" -modfile="$WORK/repo.mod" -o "$WORK/healer" ./command/healer) 2>"$WORK/build.log"; then
    cat "$WORK/build.log" >&2
    echo "check.sh: the command line tool does not build" >&2
    exit 2
  fi
  export VMON_TOOL="$WORK/healer"
  ;;
esac
mkdir -p "$HERE/evidence" "$HERE/replays"
[ "$ID" = C20 ] || ulimit -v 12000000
"$WORK/vmon" -prop "$ID" -tier "$TIER" -seed "$SEED" -evidence "$HERE/evidence/$ID.json" -replays "$HERE/replays" \
  -known "$HERE/known-findings.json" -work "$WORK/run" "${EXTRA[@]}"
