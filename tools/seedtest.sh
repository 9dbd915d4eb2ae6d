#!/bin/bash
# seedtest.sh <id> [notests]: confirms a planted bug of /verif/seeded in a scratch copy of /repo.
id=$1; S=/verif/seeded/$id; W=/tmp/w/seed
mkdir -p /tmp/w
if [ ! -d $W ]; then cp -a /repo $W; fi
git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD
for f in build test env; do sed "s#/repo#$W#g; s#/opt/vp/env.sh#/tmp/w/vp-env.sh#" /opt/vp/$f.sh > /tmp/w/vp-$f.sh; done
D=$(mktemp -d /tmp/w/demo.XXXX); cp -r $S/. $D; rm -f $D/*.diff $D/meta.json
cd $W
( time timeout 300 bash $D/demo.sh ) >$D/clean.log 2>&1; c=$?
git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
( time timeout 300 bash $D/demo.sh ) >$D/bug.log 2>&1; b=$?
echo "$id demo: clean=$c bug=$b  ($(grep real $D/clean.log) / $(grep real $D/bug.log))"
tail -5 $D/bug.log; [ $c -eq 0 ] || tail -20 $D/clean.log
if [ "$2" != notests ]; then
 bash /tmp/w/vp-build.sh >/tmp/w/sb.log 2>&1 || { echo BUILD FAILED; tail /tmp/w/sb.log; }
 bash /tmp/w/vp-test.sh /tmp/w/st.json | tail -1
 python3 - <<'P'
import json
j=json.load(open('/tmp/w/st.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
ok=set(j.get('passed',j.get('pass',[])))
print("missing:", [x for x in b if x not in ok][:10])
P
fi
git checkout -q -- .
git status --short | head
rm -rf $D
