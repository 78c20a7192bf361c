#!/bin/bash
# mkseed.sh ID [DIR]: takes the change made in the scratch copy DIR (/tmp/seed, made with cp -a /repo) as planted bug ID, after
# confirming that it builds, passes the stable tests, and that /verif/seeded/ID/demo.sh fails with it and passes without it.
# Undoes it there. All of it happens in DIR.
set -u
ID=$1; S=${2:-/tmp/seed}; D=/verif/seeded/$ID
[ -f $D/demo.sh ] || { echo "no demo.sh"; exit 1; }
git -C $S diff > $D/patch.diff; [ -s $D/patch.diff ] || { echo "no change"; exit 1; }
for f in build test; do sed "s#/repo#$S#g; s#/opt/vp/build.sh#$S.build.sh#g" /opt/vp/$f.sh > $S.$f.sh; done
rc=0; a=-; z=-
if bash $S.build.sh > $S.log 2>&1; then
  (cd $S && timeout 300 bash $D/demo.sh > $S.demo1 2>&1); a=$?
  [ $a != 0 ] || { echo "demo passes with the change"; rc=1; }
  bash $S.test.sh $S.json > $S.t 2>&1
  python3 - $S.json <<'P' || rc=1
import json, sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
miss=set(b['stable'])-set(o['passed'])
print('stable tests missing:',len(miss),list(miss)[:3]); raise SystemExit(1 if miss else 0)
P
else tail -20 $S.log; rc=1; fi
git -C $S checkout -q -- .
bash $S.build.sh > $S.log 2>&1 || rc=1
(cd $S && timeout 300 bash $D/demo.sh > $S.demo0 2>&1); z=$?
[ $z = 0 ] || { echo "demo fails without the change: $z"; tail -5 $S.demo0; rc=1; }
echo "$ID rc=$rc demo with=$a without=$z; with: $(tail -2 $S.demo1 | tr '\n' ' ')"
exit $rc
