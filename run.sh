#!/bin/bash
# run.sh ID quick|thorough    decide one property against /repo's working tree
# run.sh setup                build everything once (warms the build cache)
# run.sh replay FILE          re-run one recorded violation
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GO111MODULE=on GOWORK=off
[ -d /opt/veriftools/go1.27.3/bin ] && PATH=/opt/veriftools/go1.27.3/bin:$PATH
export PATH
mkdir -p "$VERIF_DIR/.build" || exit 2
W=$(mktemp -d "$VERIF_DIR/.build/run-XXXXXXXX") || exit 2
trap 'rm -rf -- "$W"' EXIT
build() {
  (cd "$VERIF_DIR/mc" && go build -o "$W/mc" .) || { echo "build of the harness failed" >&2; return 3; }
}
# C27 runs an instrumented copy of the library (a scheduling point before every
# statement), laid over /repo's files for this build only, under the race detector.
build_c27() {
  mkdir -p "$W/instr" || return 3
  (cd "$VERIF_DIR/mc" && go build -o "$W/instrument" ./instr) || { echo "build of the instrumenter failed" >&2; return 3; }
  C27_POINTS=$("$W/instrument" /repo "$W/instr") || { echo "instrumentation failed" >&2; return 3; }
  export C27_POINTS
  (cd "$VERIF_DIR/mc" && go build -race -overlay "$W/instr/overlay.json" \
    -gcflags='github.com/bitcoinsv/...=-race=false' -gcflags='math/big=-race=false' \
    -gcflags='compress/...=-race=false' -gcflags='encoding/base64=-race=false' -gcflags='hash/adler32=-race=false' \
    -o "$W/c27" ./c27) || { echo "build of the instrumented library failed" >&2; return 3; }
}
case "${1:-}" in
  setup) build && "$W/mc" list >/dev/null && build_c27; exit $? ;;
  replay)
    if grep -q '"Property": *"C27"' "$2"; then build_c27 || exit 3; "$W/c27" replay "$2"; exit $?; fi
    build || exit 3; "$W/mc" replay "$2"; exit $? ;;
  C27) build_c27 || exit 3; "$W/c27" run "${2:-quick}"; exit $? ;;
esac
build || exit 3
"$W/mc" run "$1" "${2:-quick}"
exit $?
