#!/bin/bash
# tryseed.sh ID [PROPERTY..]: runs checks against a planted change
id=$1; shift; d=/verif/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
for p in $props; do
    (cd /verif && VERIF_SEED=${SEED:-1} python3 check.py $p > /tmp/try.$id.$p 2>&1); rc=$?
    echo "$id $p rc=$rc $(grep -m1 VIOLATION /tmp/try.$id.$p) $(tail -1 /tmp/try.$id.$p | cut -c1-120)"
done
