#!/bin/bash
# trybug.sh ID [PROP...]: applies a planted bug to /repo, runs checks, undoes it
id=$1; shift
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
props=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
for p in $props; do
    out=$(cd /verif && ./check.sh $p quick 2>&1); rc=$?
    echo "$id $p rc=$rc $(echo "$out" | grep -v '^replayed\|^VIOL' | tail -1 | cut -c1-200)"
done
