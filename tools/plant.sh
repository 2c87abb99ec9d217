#!/bin/bash
# tools/plant.sh ID PROP : takes the uncommitted edit in /repo as planted bug ID,
# confirms it (builds, stable tests, demo fails with it and passes without it),
# runs the property's check against it and undoes it.
# With --redo the patch already kept under seeded/ID is applied first.
T=$(mktemp -d /tmp/plant.XXXXXX)
ID=$1; PROP=$2; S=/verif/seeded/$ID
if [ "$3" = --redo ]; then git -C /repo apply $S/patch.diff || exit 9; else
git -C /repo diff > $S/patch.diff; fi
[ -s $S/patch.diff ] || { echo "no edit"; exit 9; }
trap 'git -C /repo checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1; rm -rf "$T"' EXIT
bash /opt/vp/test.sh $T/plant.json > $T/plant.log 2>&1
python3 - $T/plant.json <<'P'
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open(sys.argv[1]))
print("tests:",{k:(len(v) if isinstance(v,(list,dict)) else v) for k,v in o.items()})
def names(d,k): 
    v=d.get(k,[]); return set(v if isinstance(v,list) else v.keys())
bp=None
for k in b:
    if isinstance(b[k],list): bp=set(map(str,b[k])); break
print("stable missing:", len([t for t in bp if t not in set(map(str,o.get("passed",o.get("pass",[]))))]) if bp else "?")
P
(cd /repo && timeout 300 bash $S/demo.sh > $T/plant.demo 2>&1); echo "demo with patch: $?"; tail -3 $T/plant.demo
(cd /verif && VERIF_SEED=1 ./check $PROP > $T/plant.chk 2>&1); echo "check: $?"; grep -E "VIOLATION|error" $T/plant.chk | head -5
git -C /repo checkout -q -- .
bash /opt/vp/build.sh > /dev/null 2>&1
(cd /repo && timeout 300 bash $S/demo.sh > $T/plant.demo 2>&1); echo "demo without: $?"; tail -3 $T/plant.demo
trap 'rm -rf "$T"' EXIT
