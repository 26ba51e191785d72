cd /verif
for i in "$@"; do p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])"); d=/tmp/srepo; rm -rf /tmp/srepo; mkdir -p $d; git -C /repo archive HEAD | tar x -C $d; (cd $d; git init -q . ; git apply /verif/seeded/$i/patch.diff); VERIF_REPO=$d timeout 900 ./check.py $p > /tmp/chk.out 2>&1; echo "$i $p rc=$? $(grep -m1 VIOLATION /tmp/chk.out|cut -c1-250)"; done; rm -rf /tmp/srepo
