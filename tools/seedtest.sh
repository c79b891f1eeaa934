#!/bin/bash
# seedtest.sh ID [nocheck]: confirm a planted change in a scratch copy: applies, builds, keeps the tests, demo 0/nonzero, and run the property's check on it
ID=$1; S=/verif/seeded/$ID; W=/tmp/seed_$ID; PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir -p $W; cp -a /repo $W/repo; rm -rf "$W/repo/_build"; R=$W/repo
sed "s#/repo#$R#g" /opt/vp/build.sh > $W/build.sh; sed "s#/repo#$R#g; s#/opt/vp/build.sh#$W/build.sh#g" /opt/vp/test.sh > $W/test.sh
if [ "$2" != nodemo ]; then
cp -r $S $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
(cd /repo && [ -d _build ] || bash /opt/vp/build.sh >/dev/null 2>&1; cd /repo && bash $W/demo/demo.sh > $W/d0.txt 2>&1); echo "demo on unchanged: $?"
fi
git -C $R apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; rm -rf "$W"; exit 1; }
if [ "$2" != nodemo ]; then
bash $W/test.sh $W/out.json > $W/t.txt 2>&1; grep -c PASS $R/_build/vp-results/lines.txt; diff <(sort /repo/_build/vp-results/lines.txt) <(sort $R/_build/vp-results/lines.txt) && echo "tests as before"
(cd $R && sed "s#/repo#$R#g" -i $W/demo/demo.sh; bash $W/demo/demo.sh > $W/d1.txt 2>&1); echo "demo on changed: $?"; tail -2 $W/d1.txt
fi
if [ "$2" != nocheck ]; then (cd /verif && VC_REPO=$R python3-vt engine/check.py $PROP quick | grep -v '^KNOWN' | tail -${3:-6}); fi
rm -rf "$W"
