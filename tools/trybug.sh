#!/bin/bash
# trybug.sh <bug-id> [seed] : apply the planted bug in a scratch copy of /repo, run its demo on both trees and the check on the changed one
ID=$1; SEED=${2:-1}
D=/verif/seeded/$ID; [ -d "$D" ] || D=/verif/mutants/$ID
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
REPO=${VERIF_REPO:-/repo}
W=/tmp/trybug.$ID.$$
mkdir -p $W && cp -a $REPO $W/repo
git -C $W/repo checkout -q -- . && git -C $W/repo apply $D/patch.diff || { echo "PATCH DOES NOT APPLY"; rm -rf "$W"; exit 1; }
(cd $REPO && timeout 300 bash $D/demo.sh > $W/demo0.log 2>&1); R0=$?
(cd $W/repo && timeout 300 bash $D/demo.sh > $W/demo1.log 2>&1); R1=$?
VERIF_REPO=$W/repo bash /verif/run.sh $PROP --tier quick --seed $SEED > $W/check.log 2>&1; RC=$?
echo "$ID prop=$PROP demo(clean)=$R0 demo(bug)=$R1 check=$RC $(grep -c ^VIOLATION $W/check.log) violations"
[ "$R0" != 0 ] && tail -5 $W/demo0.log
[ "$R1" = 0 ] && tail -5 $W/demo1.log
[ -n "$VERBOSE" ] && tail -40 $W/check.log | cut -c1-1500
rm -rf "$W"
