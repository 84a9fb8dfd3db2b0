#!/bin/bash
# Warm the Go build cache for the checks (each check still builds by itself).
set -eu
HERE=$(cd "$(dirname "$0")" && pwd)
. "$HERE/env.sh"
T=$(mktemp -d "${TMPDIR:-/tmp}/vsetup.XXXXXXXX")
trap 'rm -rf "$T"' EXIT
make_workspace "$T/ws"
cd "$HERE/harness"
go build -tags verif -o "$T/a" ./vmon
go build -tags verif -race -o "$T/b" ./vmon
(cd "$REPO_DIR/cmd/qrcode" && go build -o "$T/c" .)
(cd "$REPO_DIR/cmd/wasm" && GOOS=js GOARCH=wasm go build -o "$T/d" .)
mkdir -p "$HERE/evidence"
echo "setup done"
