#!/bin/bash
# Usage: check.sh <property id>...   decides the properties for the source in /repo.
# Builds the analyser from /verif/analyzer first (vendored dependencies, offline).
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOWORK=off GOPROXY=off
out="$here/.bin/analyzer"
mkdir -p "$here/.bin" "$here/evidence"
cd "$here/analyzer" || exit 2
if [ ! -x "$out" ] || [ -n "$(find . -newer "$out" -name '*.go' -print -quit)" ]; then
	if ! go build -o "$out" . ; then
		echo "the analyser does not build" >&2
		exit 2
	fi
fi
cd "$here" || exit 2
unset GOFLAGS
exec "$out" "$@"
