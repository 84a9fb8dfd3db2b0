#!/bin/bash
# run.sh <property> [--replay FILE]: build the monitor against /repo's working
# tree in a scratch directory, run it, remove the scratch directory.
# Exit 0 held, 1 violated (VIOLATION line), 2 no verdict.
set -u
ID=${1:?property}
shift
HERE=$(cd "$(dirname "$0")" && pwd)
. "$HERE/env.sh"
T=$(mktemp -d "${TMPDIR:-/tmp}/vmon.XXXXXXXX") || exit 2
trap 'chmod -R u+rwX "$T" 2>/dev/null; rm -rf "$T"' EXIT
make_workspace "$T/ws"
cd "$HERE/harness" || exit 2
FLAGS=(-tags verif)
case " C12 " in *" $ID "*) FLAGS+=(-race) ;; esac
if ! go build "${FLAGS[@]}" -o "$T/vmon" ./vmon >"$T/build.log" 2>&1; then
  cat "$T/build.log" >&2
  echo "run.sh: the harness does not build against $REPO_DIR: no verdict" >&2
  exit 2
fi
case " C28 C29 " in
*" $ID "*)
  if [ "$ID" = C28 ]; then
    (cd "$REPO_DIR/cmd/qrcode" && go build -o "$T/qrcode" .) >"$T/build.log" 2>&1
  else
    (cd "$REPO_DIR/cmd/wasm" && GOOS=js GOARCH=wasm go build -o "$T/qrcode.wasm" .) >"$T/build.log" 2>&1
  fi
  if [ $? -ne 0 ]; then
    cat "$T/build.log" >&2
    echo "run.sh: the command does not build: no verdict" >&2
    exit 2
  fi
  export VMON_CLI="$T/qrcode" VMON_WASM="$T/qrcode.wasm" VMON_WASM_EXEC="$(go env GOROOT)/lib/wasm/wasm_exec.js"
  ;;
esac
ARGS=(-prop "$ID" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}")
if [ "${1:-}" = --replay ]; then ARGS=(-prop "$ID" -replay "$2"); fi
mkdir -p "$T/run"
export TMPDIR="$T/run"
"$T/vmon" "${ARGS[@]}" -scratch "$T/run" -verif "$HERE"
RC=$?
exit $RC
