#!/bin/bash
# runbugs.sh [ids...]: quick check of each seeded bug's property in scratch copies
. /opt/vp/env.sh
(cd /verif/symex && GOFLAGS=-mod=vendor go build -o /tmp/plant/symex .) || exit 2
export GOFLAGS=-mod=readonly
ids="$@"; [ -z "$ids" ] && ids=$(ls /verif/seeded)
for id in $ids; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 d=/tmp/plant/w_$id; rm -rf $d; cp -a /repo $d; (cd $d && git apply /verif/seeded/$id/patch.diff) || echo applyfail
 s=$(date +%s.%N)
 out=$(timeout 900 /tmp/plant/symex -property $p -tier quick -repo $d -verif /verif -evidence=false 2>&1); rc=$?
 e=$(date +%s.%N)
 printf "%-32s %s rc=%d %.0fs %s\n" $id $p $rc $(echo "$e-$s"|bc) "$(echo "$out" | grep -A1 ^VIOLATION | tr '\n' ' ' | cut -c1-220)"
 rm -rf $d
done
