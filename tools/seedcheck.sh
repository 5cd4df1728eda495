#!/bin/bash
# usage: seedcheck.sh ID... : runs the quick check of each seed's property against a scratch copy with the patch applied
for ID in "$@"; do
D=/verif/seeded/$ID; W=/tmp/seed/chk-$ID; rm -rf /tmp/seed/chk-$ID; mkdir -p $W
git -C /repo archive HEAD | tar x -C $W; (cd $W && git init -q && git apply $D/patch.diff) || echo APPLY FAILED
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
CMD=$(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property_id' if 'property_id' in c else 'property']=='$P': print(c.get('quick_cmd') or c['quick'])")
T=$(date +%s); (cd /verif; VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO=$W timeout 900 bash -c "$CMD" >$W.log 2>&1; echo "$ID $P rc=$? $(($(date +%s)-T))s $(grep -m1 VIOLATION $W.log)")
rm -rf $W
done
