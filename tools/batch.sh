#!/bin/bash
# tools/batch.sh ID...   Builds and tests, once, a scratch copy of /repo with all the given planted bugs applied together.
V=$(cd "$(dirname "$0")/.."; pwd); R=${BUG_REPO:-/repo}
W=$(mktemp -d /tmp/batch-XXXXXX)
cp -a $R $W/repo; cd $W/repo; git checkout -q -- .
for i in "$@"; do git apply $V/seeded/$i/patch.diff || echo "$i: DOES NOT APPLY"; done
unshare -m bash -c "mount --bind $W/repo /repo && cd /repo && bash /opt/vp/build.sh > $W/build.log 2>&1; echo build=\$?; bash /opt/vp/test.sh $W/t.json > $W/test.log 2>&1"
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
t=json.load(open('$W/t.json'))
bad=sorted(b-set(t['passed']))
print('tests ok' if not bad else 'TESTS BROKEN %d: %s' % (len(bad), bad))
P
rm -rf $W
