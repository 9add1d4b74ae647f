#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property on /repo's current tree
# check.sh replay FILE                 run a reported counterexample again
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off
if [ ! -x engine/engine ] || [ -n "$(find engine -maxdepth 1 -name '*.go' -newer engine/engine -print -quit)" ]; then
  (cd engine && go build -o engine.tmp . && mv engine.tmp engine) || exit 2
fi
unset GOFLAGS
case "$1" in
  build) exit 0 ;;
  replay) exec engine/engine replay "$2" ;;
  *) exec engine/engine check "$1" "${2:-quick}" ;;
esac
