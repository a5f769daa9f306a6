#!/bin/bash
# run.sh ID: decide one property of /repo's current tree. Builds the checker first if it is missing or older than its source.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS
bin=bin/checker
if [ ! -x $bin ] || [ -n "$(find checker -newer $bin -print -quit 2>/dev/null)" ]; then
  mkdir -p bin
  (cd checker && go build -o ../bin/checker.new.$$ . && mv ../bin/checker.new.$$ ../bin/checker) || exit 2
fi
exec ./bin/checker -repo "${REPO:-/repo}" -verif "$PWD" "$@"
