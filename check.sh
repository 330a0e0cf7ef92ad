#!/bin/bash
# check.sh ID            decide property ID on /repo's working tree (VERIF_TIER, VERIF_SEED)
# check.sh --replay FILE run the case of a violation again
# check.sh --setup       fill the build cache
# exit 0: held on everything explored; 1: violated (VIOLATION line); 2: no verdict
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly GO111MODULE=on
unset GOOS GOARCH GOEXPERIMENT GODEBUG GORACE GOMAXPROCS TZ
export VERIF_ROOT="$here" HARNESS_JS="$here/harness/js"

replay=
case "${1:-}" in
  --replay) replay=$(readlink -f "$2"); id=$(sed -n 's/^ *"property": "\(C[0-9]*\)".*/\1/p' "$replay" | head -1) ;;
  --setup) id=setup ;;
  C[0-9][0-9]) id=$1 ;;
  *) echo "usage: check.sh ID | --replay FILE | --setup" >&2; exit 2 ;;
esac

mkdir -p "$here/build" || exit 2
b=$(mktemp -d "$here/build/$id.XXXXXX") || exit 2
trap 'rm -rf "$b"' EXIT
trap 'exit 2' INT TERM

fail() { echo "no verdict: $*" >&2; exit 2; }
# two harnesses may not be built at once where memory is short; go's cache makes the next one quick
cd "$here/harness" || exit 2
go build -o "$b/harness" . || fail "the harness does not build"

# the library where an int has 32 bits
case "$id" in
  C17|C19|C20) ;;
  *) GOARCH=386 go build -o "$b/harness-32" . || fail "the harness does not build for 386"
     export HARNESS_32="$b/harness-32" ;;
esac

tools() {
  ( cd /repo &&
    GOOS=js GOARCH=wasm go build -ldflags="-s -w" -tags wasmjs -o "$b/parse-js.wasm" ./cmd/parse-wasm &&
    GOOS=wasip1 GOARCH=wasm go build -ldflags="-s -w" -tags wasip1 -o "$b/parse-p1.wasm" ./cmd/parse-wasi ) || fail "the WebAssembly programs do not build"
  export HARNESS_TOOLS="$b"
  HARNESS_WASM_EXEC="$(go env GOROOT)/lib/wasm/wasm_exec.js"
  export HARNESS_WASM_EXEC
}

case "$id" in
  C17|setup)
    go build -race -o "$b/harness-race" . || fail "the harness does not build with the race detector"
    ./overlay.sh "$b" && go build -tags observe -overlay "$b/observe.json" -o "$b/harness-observe" . || fail "the observing harness does not build"
    export HARNESS_RACE="$b/harness-race" HARNESS_OBSERVE="$b/harness-observe" ;;&
  C19|C20|setup)
    tools ;;&
  C19|setup)
    ( cd /repo && go build -o "$b/parse" ./cmd/parse && go build -o "$b/matches" ./cmd/matches ) || fail "the tools do not build" ;;&
  C20|setup)
    # the server embeds the binaries built here, not those which lie in /repo
    printf '{"Replace":{"/repo/wasm/parse-js.wasm":"%s","/repo/wasm/parse-p1.wasm":"%s"}}' "$b/parse-js.wasm" "$b/parse-p1.wasm" >"$b/overlay.json"
    ( cd /repo && go build -overlay "$b/overlay.json" -o "$b/server" ./cmd/server-wasm ) || fail "the server does not build" ;;
esac
[ "$id" = setup ] && { echo ready; exit 0; }

if [ -n "$replay" ]; then
  "$b/harness" replay "$replay"
else
  "$b/harness" run "$id"
fi
exit $?
