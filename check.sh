#!/bin/bash
# usage: check.sh <property id> [quick|thorough] [engine flags]
#        check.sh replay <file>
# Symbolically executes the harnesses of one property over the current source
# in /repo. Exit 0: no violation; exit 1: VIOLATION line printed.
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p "$here/build" "$here/evidence"
(cd "$here/engine" && go build -o "$here/build/gosym" .) || { echo "cannot build the engine" >&2; exit 2; }
if [ "${1:-}" = setup ]; then
	exit 0
fi
if [ "${1:-}" = replay ]; then
	exec "$here/build/gosym" -verif "$here" -replay "$2"
fi
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
exec "$here/build/gosym" -verif "$here" -prop "$prop" -tier "$tier" "$@"
