#!/bin/bash
# tools/mut.sh FILE PYTHON-REPLACE-OLD NEW PROP...   : apply a textual change in a scratch copy, run the checks there
f=$1; old=$2; new=$3; shift 3
d=/tmp/mrepo.$$; mkdir -p $d; git -C /repo archive HEAD | tar x -C $d
OLD="$old" NEW="$new" python3 - "$d/$f" <<'P' || { rm -rf "$d"; exit 9; }
import os,sys
p=sys.argv[1]; s=open(p).read(); o=os.environ["OLD"]
assert o in s, "not found: "+o
open(p,"w").write(s.replace(o,os.environ["NEW"],1))
P
for p in "$@"; do VERIF_REPO=$d timeout 900 ./check.py $p 2>&1 | grep -E "VIOLATION|held|error|message|because" | cut -c1-330 | head -3; done
rm -rf "$d"
