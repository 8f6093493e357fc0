#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   or   check.sh replay FILE
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GO111MODULE=on GOWORK=off
unset GOROOT
mkdir -p bin evidence
if ! (cd engine && go build -o ../bin/symgo .) ; then
	echo "ERROR the engine does not build"
	exit 2
fi
if [ "$1" = replay ]; then
	exec ./bin/symgo -verif "$PWD" -replay "$2"
fi
exec ./bin/symgo -verif "$PWD" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
