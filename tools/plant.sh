#!/bin/bash
# plant.sh ID [nodetect|N]: confirm a planted bug in a scratch copy of /repo and run the simulation against it.
id=$1; n=${2:-4000}
. /verif/env.sh
s=/verif/seeded/$id
w=/tmp/plant.$id; mkdir -p $w
rm -rf $w/repo; cp -a /repo $w/repo
cd $w/repo && git checkout -q -- . 
if [ "$n" != only ]; then
bash $s/demo.sh >$w/demo0.log 2>&1; a=$?
fi
git apply $s/patch.diff || { echo "$id: patch does not apply"; exit 1; }
(go build ./... && cd ext && go build ./...) || { echo "$id: does not build"; exit 1; }
if [ "$n" != only ]; then
bash $s/demo.sh >$w/demo1.log 2>&1; b=$?
sed "s#/repo#$w/repo#" /opt/vp/test.sh > $w/test.sh
bash $w/test.sh $w/t.json >/dev/null 2>&1
miss=$(python3 - $w/t.json <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
m=[x for x in b['stable'] if x not in t['passed']]
print(len(m), m[:3])
PY
)
echo "$id: demo unpatched=$a patched=$b; stable tests missing: $miss"
[ "$n" = nodetect ] && { rm -rf $w/repo; exit 0; }
fi
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
cd /verif && go build -o $w/vdrive ./cmd/vdrive || exit 1
VERIF_DIR=/verif VERIF_REPO=$w/repo VERIF_TIER=quick $w/vdrive check $prop quick > $w/check.log 2>&1
echo "$id: check $prop exit $? $(grep -m1 VIOLATION $w/check.log)"
rm -rf $w/repo
