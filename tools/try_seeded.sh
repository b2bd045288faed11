#!/bin/bash
# try_seeded.sh <id>... : run the property's quick check of /verif on a scratch copy of /repo with the seeded change applied
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  d=/tmp/try/$id; rm -rf "/tmp/try/$id"; mkdir -p /tmp/try; cp -a /repo $d
  if git -C $d apply "$PWD/seeded/$id/patch.diff"; then
    s=$(date +%s); o=$(VERIF_REPO=$d ./check.sh $p quick 2>&1); rc=$?
    echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$o" | grep -c '^VIOLATION') $(echo "$o" | grep 'violated:\|INCONC\|ERROR' | head -1 | cut -c1-140)"
  else echo "$id: patch does not apply"; fi
  rm -rf "/tmp/try/$id"
done
