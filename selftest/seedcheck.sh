#!/bin/bash
# seedcheck.sh ID... : demo passes clean, fails patched, tests pass patched, check catches (in a scratch copy)
for id in "$@"; do
T=$(mktemp -d /tmp/seed.XXXX); cp -a /repo/. $T/
(cd $T && bash /verif/seeded/$id/demo.sh >/tmp/sc.$id.clean 2>&1); a=$?
git -C $T apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
(cd $T && bash /verif/seeded/$id/demo.sh >/tmp/sc.$id.bad 2>&1); b=$?
prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
VERIF_REPO=$T VERIF_EVIDENCE_DIR=/tmp/sc.ev python3 /verif/check.py $prop quick > /tmp/sc.$id.chk 2>&1; c=$?
echo "$id clean=$a patched=$b check=$c"
rm -r "$T"
done
