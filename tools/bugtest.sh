#!/bin/bash
# bugtest.sh ID...: confirm planted bugs in /repo itself (applied, built, tested, demonstrated, checked, undone)
for id in "$@"; do
 d=/verif/seeded/$id; prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
 cd /repo; git diff --quiet || { echo "repo dirty"; exit 1; }
 r0=skip; [ -z "$NODEMO0" ] && { bash $d/demo.sh >/tmp/bt.demo0 2>&1; r0=$?; }
 git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
 t=skip; [ -z "$NOTEST" ] && { bash /opt/vp/build.sh >/tmp/bt.build 2>&1 || echo "$id: BUILD FAILED"; t=$(bash /opt/vp/test.sh /tmp/bt.json 2>&1 | tail -1); }
 bash $d/demo.sh >/tmp/bt.demo1 2>&1; r1=$?
 props=${PROPS:-$prop}; res=""
 for p in $props; do VERIF_BUILD=/tmp/btb python3 /verif/check.py $p >/tmp/bt.check.$p 2>&1; rc=$?; res="$res $p:rc=$rc $(grep -m1 'failing leg' /tmp/bt.check.$p | sed 's/reproduced.*//') $(grep -o 'total [0-9.]*s' /tmp/bt.check.$p)"; done
 git checkout -- .
 echo "$id [$prop] demo clean=$r0 patched=$r1 | tests: $t | $res"
done
rm -rf /tmp/btb
