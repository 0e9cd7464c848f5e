#!/bin/bash
# run.sh PROPERTY [quick|thorough] [vx flags]: build the tool from the committed sources, then decide.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
mkdir -p bin evidence
id=$1; tier=${2:-quick}; shift; shift
if ! go build -o bin/vx.$$ ./cmd/vx; then
  rm -f bin/vx.$$
  echo "INCONCLUSIVE: the tool does not build"
  exit 2
fi
mv bin/vx.$$ bin/vx
exec bin/vx -tier "$tier" -root "$PWD" "$@" "$id"
