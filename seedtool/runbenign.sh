#!/bin/bash
# runbenign.sh ID...: the checks on refactorings made by benign.py
for id in "$@"; do
  r=/tmp/br-$id; v=/tmp/bv-$id; rm -rf "$r" "$v"; mkdir "$r"; cp -a /repo/. "$r"/; mkdir "$v"; cp -a /verif/{check.py,harness,models,native,props,tool,known_findings.json,build} "$v"/
  (cd "$r" && git apply /tmp/benign/$id.diff) || { echo "$id: does not apply"; continue; }
  for p in $(cat /tmp/benign/$id.props); do
    unshare -m bash -c "mount --bind $r /repo; mount --bind $v /verif; cd /verif; s=\$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p > /tmp/bc-$id-$p.txt 2>&1; echo \"$id $p rc \$? \$((\$(date +%s)-s)) s: \$(grep -a -E 'VIOLATION|holds' /tmp/bc-$id-$p.txt | tail -1)\""
  done
  rm -rf "$r" "$v"
done
