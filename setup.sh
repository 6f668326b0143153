#!/bin/bash
# warms the build cache: the harness, plain and with the race detector, against /repo
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${REPO:-/repo}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=vendor" GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=1
SCRATCH="$(mktemp -d /tmp/zzverif-setup.XXXXXX)" || exit 1
trap 'rm -rf "$SCRATCH"' EXIT
python3 "$HERE/tools/overlay.py" "$HERE" "$REPO" "$SCRATCH/overlay.json" || exit 1
cd "$REPO" || exit 1
go build -overlay "$SCRATCH/overlay.json" -o "$SCRATCH/zzverif" ./zzverif || exit 1
go build -race -overlay "$SCRATCH/overlay.json" -o "$SCRATCH/zzverif-race" ./zzverif || exit 1
"$SCRATCH/zzverif" -list
