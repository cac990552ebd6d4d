#!/bin/sh
# check.sh ID: decide property ID on the current source of /repo.
dir=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
export GOGC=400 GOMEMLIMIT=12GiB
export SRL_VERIF="$dir"
[ -n "$HOME" ] || export HOME=/root
mkdir -p "$dir/bin" "$dir/evidence"
if ! (cd "$dir/analyzer" && go build -o "$dir/bin/srl" .) >"$dir/bin/build.log" 2>&1; then
	cat "$dir/bin/build.log"
	[ "$1" = setup ] && exit 1
	echo "analyzer does not build" >"$dir/evidence/$1.violation.txt"
	echo "VIOLATION property=$1 replay=$dir/evidence/$1.violation.txt"
	exit 1
fi
[ "$1" = setup ] && exit 0
exec "$dir/bin/srl" check "$1"
