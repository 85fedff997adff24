#!/bin/bash
# check.sh <property>: builds the analyser from /verif/tool if needed and decides one property
# on the current source of /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
mkdir -p bin evidence
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
(
  flock 9
  if [ ! -x bin/polyverif ] || [ -n "$(find tool -newer bin/polyverif \( -name '*.go' -o -name 'go.*' -o -name '*.rs' -o -name '*.js' -o -name '*.templ' \) -print -quit)" ]; then
    (cd tool && go build -o ../bin/polyverif.new . && mv ../bin/polyverif.new ../bin/polyverif) >bin/build.log 2>&1 || { cat bin/build.log; exit 3; }
  fi
) 9>bin/.lock || { echo "cannot build the analyser"; exit 3; }
[ "${1:-}" = --build ] && exit 0
exec bin/polyverif check "$1"
