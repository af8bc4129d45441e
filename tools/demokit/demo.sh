#!/bin/bash
# Runs the demonstration beside this script in a package of its own, added to
# the module by an overlay. Run in the root of the repository.
d=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
export TMPDIR="$w"
r=
for f in "$d"/*_test.go; do r="$r${r:+,}\"$PWD/zz_demo/$(basename "$f")\":\"$f\""; done
echo "{\"Replace\":{$r}}" > "$w/overlay.json"
go test -c -overlay "$w/overlay.json" -vet=off -o "$w/demo" ./zz_demo || exit 3
cd "$w" && ./demo -test.timeout 200s -test.run '^TestDemo'
