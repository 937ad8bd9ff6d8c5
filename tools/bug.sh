#!/bin/bash
# bug.sh SLOT ID [CHECK]: test planted bug in private namespace copies
S=$1; ID=$2; CK=$3; R=/tmp/slots/$S; mkdir -p $R/repo $R/verif
if [ -z "$NOSYNC" ]; then rsync -a --delete /repo/ $R/repo/; fi
rsync -a --delete /verif/ $R/verif/
export R ID CK
unshare -Urm bash -c '
mount --bind $R/repo /repo; mount --bind $R/verif /verif; cd /repo
git config --global --add safe.directory "*" 2>/dev/null
D=/verif/seeded/$ID
if [ -z "$SKIPT" ]; then
  bash /opt/vp/build.sh >/tmp/bl.$ID 2>&1 || { echo "base build failed"; tail -5 /tmp/bl.$ID; exit 1; }
  bash $D/demo.sh >/tmp/dl.$ID 2>&1; echo "$ID demo on base: $?"; 
fi
git apply $D/patch.diff || { echo "patch fails"; exit 1; }
if [ -z "$SKIPT" ]; then
  bash /opt/vp/test.sh /tmp/tj.$ID >/tmp/tl.$ID 2>&1; python3 - <<P
import json
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
d=json.load(open("/tmp/tj.$ID")); p=set(d["passed"]); print("$ID tests passed",len(p),"lost",sorted(b-p)[:5])
P
  bash $D/demo.sh >/tmp/dm.$ID 2>&1; echo "$ID demo with bug: $?"; tail -2 /tmp/dm.$ID | cut -c1-200
fi
if [ -n "$CK" ]; then cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py $CK >/tmp/ck.$ID 2>&1; echo "$ID check $CK: $?"; grep -m3 VIOLATION /tmp/ck.$ID | cut -c1-250; fi
cd /repo; git apply -R $D/patch.diff
'
