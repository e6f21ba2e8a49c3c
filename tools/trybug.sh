#!/bin/bash
# trybug.sh SEED-ID... : run the property's check on a scratch copy with the planted change
for id in "$@"; do
W=$(mktemp -d /tmp/trybug.XXXX); cp -a /repo "$W/repo"
git -C "$W/repo" apply "/verif/seeded/$id/patch.diff" || echo "NO APPLY $id"
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
s=$(date +%s); GOCV_REPO="$W/repo" bash /verif/check.sh $P quick > "$W/out" 2>&1; rc=$?
echo "== $id $P rc=$rc $(( $(date +%s)-s ))s: $(grep -m1 '^VIOLATION' $W/out)"; [ -n "$V" ] && cat "$W/out"
rm -rf "$W"
done
