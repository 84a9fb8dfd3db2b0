# Sourced by the checks: offline Go build settings and a throw-away workspace
# that joins the harness with the modules of /repo's working tree.
# After sourcing: $WORK is the scratch directory, $GOWORK the workspace file.
export HOME=${HOME:-/root}
export PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-buildvcs=false
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOOS GOARCH GOROOT QRCODE_DEBUG
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO_DIR=${REPO_DIR:-/repo}
make_workspace() {
  WORK=$1
  mkdir -p "$WORK"
  cp "$VERIF_DIR/harness/work.sum" "$WORK/go.work.sum"
  {
    echo "go 1.22"
    echo "use ("
    for d in "$VERIF_DIR/harness" "$REPO_DIR" "$REPO_DIR/cmd/qrcode" "$REPO_DIR/cmd/wasm" \
      "$REPO_DIR/writer/compressed" "$REPO_DIR/writer/file" "$REPO_DIR/writer/standard" "$REPO_DIR/writer/terminal"; do
      echo "  $d"
    done
    echo ")"
  } > "$WORK/go.work"
  export GOWORK="$WORK/go.work"
}
