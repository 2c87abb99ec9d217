#!/bin/bash
# tools/plantns.sh ID PROP SPEC: as plant.sh, in a private copy of /repo (mount namespace,
# /tmp/mutbase over /repo), so that other work on /repo can go on meanwhile.
# SPEC is a file of python: M = [(src file, old, new), ...], the edits; --redo takes the kept patch.
W=$(mktemp -d /tmp/plantns.XXXXXX); cp -a /tmp/mutbase $W/repo; mkdir $W/build $W/ev
if [ "$3" = --redo ]; then R=--redo; else
python3 - $W/repo/src/ "$3" <<'E' || exit 9
import sys
d,f=sys.argv[1:3]; ns={}; exec(open(f).read(),ns)
for p,o,n in ns["M"]:
    s=open(d+p,encoding="latin-1").read()
    if s.count(o)!=1: sys.exit("bad edit %s %d"%(p,s.count(o)))
    open(d+p,"w",encoding="latin-1").write(s.replace(o,n))
E
fi
unshare -Urm bash -c "mount --bind $W/repo /repo; mount --bind $W/build /verif/.build; mount --bind $W/ev /verif/evidence; GLU_VERIF_OBJCACHE=/tmp/objcache bash /verif/tools/plant.sh $1 $2 $R"
rm -rf "$W"
