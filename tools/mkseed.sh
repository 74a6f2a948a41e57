#!/bin/bash
# mkseed.sh <id> <property> <spec dir>: try a planted bug in a scratch copy and keep it when
# it applies, builds, passes the stable tests, and its demonstration tells the two trees apart.
# <spec dir> holds patch.diff, demo.rs, needs.txt, breaks.txt.
id=$1; prop=$2; spec=$3
wt=/tmp/seedwt
if [ ! -d $wt ]; then cp -a /repo $wt; fi
git -C $wt fetch -q /repo HEAD && git -C $wt reset -q --hard FETCH_HEAD && git -C $wt clean -qfd
cp /verif/tools/demo_common.sh $spec/demo.sh
(cd $wt && bash $spec/demo.sh > $spec/clean.log 2>&1) || { echo "$id: demo fails on the clean tree"; tail -5 $spec/clean.log; exit 1; }
git -C $wt apply $spec/patch.diff || { echo "$id: does not apply"; exit 1; }
sed -e 's#/repo#/tmp/seedwt#g' /opt/vp/env.sh > /tmp/seed_env.sh
(cd $wt && . /tmp/seed_env.sh && timeout 900 cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > $spec/test.log 2>&1)
bad=$(grep -E '^test .*FAILED' $spec/test.log | head -5); comp=$(grep -cE '^error' $spec/test.log)
n=$(grep -cE '^test .* ok$' $spec/test.log)
(cd $wt && bash $spec/demo.sh > $spec/patched.log 2>&1); rc=$?
git -C $wt checkout -q -- .
if [ -n "$bad" ] || [ $n -lt 140 ]; then echo "$id: tests: $n ok; $bad"; grep -E '^error' -A5 $spec/test.log | head -20; exit 1; fi
if [ $rc = 0 ]; then echo "$id: demo passes with the patch"; exit 1; fi
mkdir -p /verif/seeded/$id
cp $spec/patch.diff $spec/demo.sh $spec/demo.rs /verif/seeded/$id/
python3 - "$prop" "$spec" > /verif/seeded/$id/meta.json <<'P'
import json,sys
p,s=sys.argv[1:]
print(json.dumps(dict(property=p,needs=open(s+"/needs.txt").read().strip(),what_it_breaks=open(s+"/breaks.txt").read().strip()),indent=1))
P
echo "$id: kept (property $prop): $(tail -3 $spec/patched.log | tr '\n' ' ' | cut -c1-200)"
