#!/bin/bash
# bash run.sh <property> : builds the monitor of one property from /repo's working tree and runs it.
# VERIF_TIER (quick|thorough) and VERIF_SEED select the workload.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
prop=$1
pkg=$(echo "$prop" | tr 'A-Z' 'a-z')
[ -d "$here/harness/$pkg" ] || { echo "no such check: $prop" >&2; exit 2; }
bin=$(mktemp -d) || exit 2
trap 'rm -rf "$bin"' EXIT
flags=()
[ -f "$here/harness/$pkg/RACE" ] && { export CGO_ENABLED=1; flags+=(-race); }
# parser.go and unparser.go need the (stand-in) tokenizer; checks that do not exercise them build without
[ -f "$here/harness/$pkg/PARSER" ] || flags+=(-overlay "$here/harness/noparser.json")
(cd "$here/harness" && go build "${flags[@]}" -o "$bin/check" "./$pkg") >"$bin/log" 2>&1 || { cat "$bin/log" >&2; echo "check $prop: build failed" >&2; exit 3; }
if [ -f "$here/harness/$pkg/CLI" ]; then # the command line tool itself, with the race detector where the file says so
  cli=(); cgo=0
  grep -q race "$here/harness/$pkg/CLI" && { cli=(-race); cgo=1; }
  (cd "$here/harness" && CGO_ENABLED=$cgo go build "${cli[@]}" -o "$bin/sadl" github.com/boynton/sadl/cmd/sadl) >"$bin/log" 2>&1 || { cat "$bin/log" >&2; echo "check $prop: build failed" >&2; exit 3; }
  export SADL_CLI=$bin/sadl
fi
"$bin/check"
