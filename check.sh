#!/bin/bash
# check.sh PROP quick|thorough   decide one property
# check.sh replay FILE           run a recorded counterexample against the compiled code
# check.sh build                 only build the engine
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off CGO_ENABLED=0
mkdir -p bin evidence
(cd engine && go build -o ../bin/engine .) || { echo "the engine does not build"; exit 2; }
case "$1" in
build) exit 0 ;;
replay) exec bin/engine replay "$2" ;;
*) exec bin/engine check "$1" "${2:-quick}" ;;
esac
