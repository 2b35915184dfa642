#!/bin/bash
# tools/bug.sh ID [check|full]   Evaluates the planted bug /verif/seeded/ID in a scratch copy bind-mounted over /repo
# in a mount namespace of its own. `check`: runs only the check; `full`: build, tests, demo (on both trees) and check.
ID=$1; MODE=${2:-full}
V=$(cd "$(dirname "$0")/.."; pwd); R=${BUG_REPO:-/repo}
D=$V/seeded/$ID; W=/tmp/bug-$ID
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
mkdir -p $W
if [ "$MODE" = full ]; then
  cp -a $R $W/repo
  rm -rf $W/demo; mkdir $W/demo; cp -a $D/. $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
  (cd $W/repo && git checkout -q -- . && git apply $D/patch.diff) || { echo "$ID: PATCH DOES NOT APPLY"; rm -rf $W; exit 1; }
  # The demo on the unchanged tree.
  (cd $R && timeout 300 bash $W/demo/demo.sh > $W/demo.clean.log 2>&1); A=$?
  [ $A = 0 ] || { echo "$ID: demo fails on the unchanged tree: $A"; tail -20 $W/demo.clean.log; rm -rf $W; exit 1; }
  unshare -m bash -c "mount --bind $W/repo /repo && cd /repo && bash /opt/vp/build.sh > $W/build.log 2>&1; echo build=\$? > $W/rc; bash /opt/vp/test.sh $W/t.json > $W/test.log 2>&1; (cd /repo; timeout 300 bash $W/demo/demo.sh > $W/demo.bug.log 2>&1); echo demo=\$? >> $W/rc"
  B=$(grep demo= $W/rc | cut -d= -f2)
  T=$(python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
t=json.load(open('$W/t.json'))
bad=sorted(b-set(t['passed']))
print('tests ok' if not bad else 'TESTS BROKEN %d: %s' % (len(bad), bad[:3]))
P
)
  echo "$ID ($PROP): demo clean=$A bug=$B; $(head -1 $W/rc); $T"
  [ $A = 0 ] && [ "$B" != 0 ] || { tail -5 $W/demo.clean.log; echo ...; tail -5 $W/demo.bug.log; }
else
  # `demo`: the demo on both trees and the check, but neither the build nor the tests (see tools/batch.sh for these).
  mkdir -p $W/repo; (cd $R && git archive HEAD | tar x -C $W/repo); (cd $W/repo && git init -q 2>/dev/null; git apply $D/patch.diff) || { echo "$ID: PATCH"; exit 1; }
  if [ "$MODE" = demo ]; then
    mkdir -p $W/demo; cp -a $D/. $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
    (cd $R && timeout 300 bash $W/demo/demo.sh > $W/demo.clean.log 2>&1); A=$?
    (cd $W/repo && timeout 300 bash $W/demo/demo.sh > $W/demo.bug.log 2>&1); B=$?
    echo "$ID ($PROP): demo clean=$A bug=$B"
    [ $A = 0 ] && [ "$B" != 0 ] || { tail -5 $W/demo.clean.log; echo ...; tail -5 $W/demo.bug.log; }
  fi
fi
cp -a $V $W/verif 2>/dev/null; rm -rf $W/verif/seeded $W/verif/.build
(cd $W/verif && VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO=$W/repo VERIF_BUILD=$W/b timeout 900 python3 run.py $PROP quick > $W/check.log 2>&1); C=$?
echo "$ID ($PROP): check rc=$C $(grep -m1 VIOLATION $W/check.log)"
grep -m3 -iE "what|tag|FAIL" $W/check.log | cut -c1-300
cp $W/check.log /tmp/bug-$ID.check.log; rm -rf $W
