#!/bin/bash
# run.sh ID [tier]: rebuilds the harness against the current tree of /repo and runs one check.
#   REPO=/some/tree run.sh ...   runs it against another tree (used while testing the machinery)
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${REPO:-/repo}"
ID="$1"
TIER="${2:-${VERIF_TIER:-quick}}"
SEED="${VERIF_SEED:-1}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export ZZREPO="$REPO"
export GOFLAGS="-mod=vendor" GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=1
RACE=""
grep -q "^$ID\$" "$HERE/harness/race.list" && RACE="-race"
SCRATCH="$(mktemp -d /tmp/zzverif-build.XXXXXX)" || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
python3 "$HERE/tools/overlay.py" "$HERE" "$REPO" "$SCRATCH/overlay.json" || exit 2
if ! (cd "$REPO" && go build $RACE -overlay "$SCRATCH/overlay.json" -o "$SCRATCH/zzverif" ./zzverif) >"$SCRATCH/build.log" 2>&1; then
  cat "$SCRATCH/build.log" >&2
  echo "the harness does not build against $REPO" >&2
  exit 2
fi
if [ -n "${REPLAY:-}" ]; then
  "$SCRATCH/zzverif" -root "$HERE" -replay "$REPLAY"
  exit $?
fi
"$SCRATCH/zzverif" -root "$HERE" -check "$ID" -tier "$TIER" -seed "$SEED"
