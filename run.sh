#!/bin/bash
# usage: run.sh check ID [mc flags] | run.sh replay FILE | run.sh build OUT
# Builds the model checker against /repo's current working tree, then runs it.
# Exit 0: the property held on everything explored; 1: VIOLATION; 2: the check itself failed.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:${PATH:-}
export HOME=${HOME:-/root} LANG=${LANG:-C.UTF-8}
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off
export VERIF_DIR=$here
cmd=${1:?usage: run.sh setup | check ID | replay FILE}
shift
if [ "$cmd" = setup ]; then
	# warm the build cache (with and without the race detector) and stop
	for r in "" -race; do (cd "$here/mc" && go build $r -o /dev/null .) || exit 1; done
	exit 0
fi
tmp=$(mktemp -d) || exit 2
trap '/bin/rm -rf "$tmp"' EXIT
race=
# C21 runs its schedules under the race detector.
if [ "$cmd" = check ] && [ "${1:-}" = C21 ]; then race=-race; fi
if [ "$cmd" = replay ] && grep -q '"property": "C21"' "$1"; then race=-race; fi
if [ -n "$race" ]; then export GORACE="halt_on_error=1 exitcode=66"; fi
out=$tmp/mc
if [ "$cmd" = build ]; then out=${1:?}; fi
if ! (cd "$here/mc" && go build $race -o "$out" .) >"$tmp/build.log" 2>&1; then
	echo "check error: the model checker does not build against /repo:" >&2
	cat "$tmp/build.log" >&2
	exit 2
fi
if [ "$cmd" = build ]; then exit 0; fi
"$out" "$cmd" "$@"
