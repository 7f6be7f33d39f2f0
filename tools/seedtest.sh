#!/bin/bash
# seedtest.sh ID [notests]: confirm a planted bug in a scratch copy, then run its check on it
. /opt/vp/env.sh
S=/verif/seeded/$1; W=/tmp/seed.$1; rm -rf /tmp/seed."$1"; mkdir -p $W/repo
rsync -a --exclude .git /repo/ $W/repo/
cd $W/repo
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir $W/d; cp $S/* $W/d/; rm -f $W/d/patch.diff $W/d/meta.json
go build ./... || echo "BUILD FAIL clean"
timeout 300 bash $W/d/demo.sh >$W/demo.clean 2>&1; a=$?
git apply --unsafe-paths --directory=$W/repo $S/patch.diff 2>$W/apply.err || patch -s -p1 < $S/patch.diff || echo "APPLY FAIL"
go build ./... || echo "BUILD FAIL patched"
timeout 300 bash $W/d/demo.sh >$W/demo.patched 2>&1; b=$?
t=skipped
if [ "$2" != notests ]; then
python3 /opt/vp/run_tests.py $W/work >/dev/null 2>&1
python3 /opt/vp/results.py $W/out.json gojson:$W/work/log.json >/dev/null 2>&1
t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$W/out.json'))
def n(x):
    if isinstance(x,dict):
        for k in ('stable','passed','pass','tests'):
            if k in x: return x[k]
    return x
m=sorted(set(n(b))-set(n(o))); print('missing',len(m),m[:3])")
fi
cp /verif/known-findings.txt $W/; cd /verif/checker && go build -o $W/checker . && VERIF_REPO=$W/repo VERIF_DIR=$W VERIF_CHECKER=/verif/checker $W/checker $prop >$W/check.out 2>&1; c=$?
echo "$1 [$prop] demo clean=$a patched=$b tests: $t check=$c: $(grep -v '^VIOLATION\|^KNOWN' $W/check.out | head -1 | cut -c1-160)"
[ -z "$KEEP" ] && rm -rf /tmp/seed."$1"
