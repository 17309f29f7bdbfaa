#!/bin/bash
# Usage: bugs.sh ID... | all: applies each planted bug to a scratch copy of
# /repo, builds, tests, runs its demo and the checks.
export GODEBUG=randautoseed=0
V="$(cd "$(dirname "$0")/.." && pwd)"
( cd $V/checker && go build -o ../bin/checker . ) || exit 2
[ "$1" = all ] && set -- $(ls $V/seeded)
for id in "$@"; do
  S=$V/seeded/$id; W=$(mktemp -d /tmp/bug.XXXXXX); cp -a /repo $W/repo; cd $W/repo
  r=""
  mkdir $W/demo; cp $S/* $W/demo; rm -f $W/demo/patch.diff $W/demo/meta.json
  bash $W/demo/demo.sh >$W/d0 2>&1 || r="$r DEMO-FAILS-UNPATCHED($(tail -3 $W/d0|tr '\n' ' '))"
  git apply $S/patch.diff || r="$r NO-APPLY"
  go build ./... 2>$W/b || r="$r NO-BUILD"
  go vet ./... >/dev/null 2>&1 || r="$r vet"
  go test ./... >$W/t 2>&1 || r="$r TESTS-FAIL($(grep -m2 -- '--- FAIL' $W/t|tr '\n' ' '))"
  bash $W/demo/demo.sh >$W/d1 2>&1 && r="$r DEMO-PASSES-PATCHED"
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  if [ -n "$NOCHECK" ]; then c=skipped; else
  mkdir -p $W/v; VERIF_DIR=$W/v VERIF_REPO=$W/repo timeout 900 $V/bin/checker check $P >$W/c 2>&1; c=$?; fi
  echo "$id $P:${r:- ok} check=$c $(head -1 $W/c 2>/dev/null|cut -c1-160)"
  cd /; rm -rf $W
done
