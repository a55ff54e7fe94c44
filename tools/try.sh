#!/bin/bash
# tools/try.sh <seeded id> [property...]: runs checks against a scratch copy with the planted bug

id=$1; shift
d=/tmp/try/$id; mkdir -p /tmp/try; rm -rf "$d"; cp -a /repo "$d"
git -C "$d" apply /verif/seeded/$id/patch.diff
props=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
cd /verif
for p in $props; do VP_REPO=$d VERIF_SEED=${VERIF_SEED:-1} timeout 900 ./check $p > /tmp/try/$id.$p.log 2>&1; echo "$id $p rc=$? $(grep -m1 -A2 VIOLATION /tmp/try/$id.$p.log | tr '\n' ' ' | cut -c1-400)"; done
rm -rf "$d"
