#!/bin/bash
# Applies automatic refactorings to scratch copies of /repo and runs every claimed check on each: all have to stay quiet.
# Usage: refactor.sh [-c CHECK,...] TRANSFORM[:flags]...   (flags as for checker/cmd/refactor, comma-separated, e.g. wrap:-only,validate)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
V=$(cd "$(dirname "$0")/.." && pwd)
(cd "$V/checker" && go build -o ../bin/refactor ./cmd/refactor && go build -o ../bin/checker .) || exit 2
IDS=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']])")
if [ "$1" = -c ]; then IDS=${2//,/ }; shift 2; fi
for t in "$@"; do
  D=$(mktemp -d /tmp/rfXXXXXX); cp -a /repo "$D/r"
  fl=${t#*:}; [ "$fl" = "$t" ] && fl=
  n=$("$V/bin/refactor" ${fl//,/ } "$D/r" "${t%%:*}" 2>&1 | tail -1)
  if ! (cd "$D/r" && go build ./... >"$D/b" 2>&1); then echo "$t: NOBUILD $(head -3 "$D/b")"; rm -rf "$D"; continue; fi
  echo "== $t: $n"
  printf "%s\n" $IDS | D=$D V=$V xargs -P 8 -I{} bash -c 'mkdir -p $D/v{}; cp $V/known_findings $D/v{}/; timeout 900 $V/bin/checker -repo $D/r -verif $D/v{} {} > $D/{}.out 2>&1; s=$?; echo {} $s $(grep -v ^VIOLATION $D/{}.out | grep -v KNOWN-FIND | head -2 | cut -c1-400) | grep -v ": [0-9]* obligations discharged"'
  [ -n "$KEEP" ] && echo "kept $D" || rm -rf "$D"
done
