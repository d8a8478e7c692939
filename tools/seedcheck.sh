#!/bin/bash
# seedcheck.sh ID [notest] : development helper. Confirms one planted bug in a
# scratch copy bind-mounted over /repo in a private mount namespace: applies,
# builds, demo 0 without / nonzero with, the stable tests pass, and whether
# the property's quick check catches it.
ID="$1"; S=/verif/seeded/$ID; C=/tmp/sd_$ID
rm -rf "$C"; git clone -q /repo "$C"
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
D=/tmp/sdd_$ID; rm -rf $D; mkdir $D; cp -a $S/. $D/; rm -f $D/patch.diff $D/meta.json
(cd /repo && timeout 300 bash $D/demo.sh >/tmp/sd_$ID.clean 2>&1); echo "$ID demo clean: $?"
git -C "$C" apply $S/patch.diff || { echo "$ID DOES NOT APPLY"; exit 1; }
unshare -Urm bash -c "
mount --bind $C /repo
bash /opt/vp/build.sh >/dev/null 2>&1; echo $ID build: \$?
(cd /repo && timeout 300 bash $D/demo.sh >/tmp/sd_$ID.dirty 2>&1); echo $ID demo patched: \$?
if [ '$2' != nocheck ]; then
 cd /verif; VERIF_SEED=1 VERIF_TIER=quick VERIF_EVIDENCE=/tmp/sd_ev_$ID ./run.sh $PROP quick > /tmp/sd_$ID.check 2>&1; echo $ID check $PROP: \$?
fi
if [ '$2' != notest ]; then
 bash /opt/vp/test.sh /tmp/sd_$ID.json >/tmp/sd_$ID.test 2>&1
 echo $ID tests: \$(/opt/venv/bin/python /tmp/cmp.py /tmp/sd_$ID.json | tail -1)
fi
"
rm -rf "$C" "$D"
