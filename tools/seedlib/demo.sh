#!/bin/bash
# runs main.go (and lib.go) as a program of the module in the current directory; nothing is written there
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
r=""
for f in "$here"/*.go; do
  r="$r${r:+,}\"$PWD/internal/zzdemo/$(basename "$f")\":\"$f\""
done
echo "{\"Replace\":{$r}}" >"$tmp/overlay.json"
go build $DEMO_BUILD -overlay "$tmp/overlay.json" -o "$tmp/demo" ./internal/zzdemo || exit 2
timeout 200 "$tmp/demo"
