#!/bin/bash
# run.sh ID...: in scratch copies bind-mounted over /repo and /verif: build, tests, demo, check
one() {
  id=$1; r=/tmp/sr-$id; v=/tmp/sv-$id
  rm -rf "$r" "$v"; cp -a /repo "$r"; mkdir "$v"; cp -a /verif/{check.py,harness,models,native,props,tool,known_findings.json,build} "$v"/
  ( cd "$r" && git apply /verif/seeded/$id/patch.diff ) || { echo "$id: patch does not apply"; return; }
  cp -r /verif/seeded/$id /tmp/sd-$id
  prop=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  unshare -m bash -c "
    mount --bind $r /repo; mount --bind $v /verif
    if [ -z '$NOTEST' ]; then
    bash /opt/vp/test.sh /tmp/st-$id.json > /tmp/sl-$id.txt 2>&1
    python3 -c \"
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/st-$id.json'))
m=b-set(t['passed']); print('$id: tests', 'OK' if not m else 'FAIL '+str(sorted(m)[:5]))\"
    (cd /repo; bash /tmp/sd-$id/demo.sh > /tmp/sdo-$id.txt 2>&1; echo \"$id: demo rc \$? (want nonzero): \$(tail -1 /tmp/sdo-$id.txt)\")
    fi
    cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $prop > /tmp/sc-$id.txt 2>&1; echo \"$id: check $prop rc \$?: \$(grep -a -E 'VIOLATION|holds' /tmp/sc-$id.txt | tail -1)\"
    [ -f build/replay/$prop.txt ] && head -3 build/replay/$prop.txt
  "
  rm -rf "$r" "$v" /tmp/sd-$id
}
export -f one; export NOTEST
for id in "$@"; do one $id; (cd /repo; if [ -z "$NOTEST" ]; then bash /verif/seeded/$id/demo.sh >/dev/null 2>&1; echo "$id: demo on clean tree rc $? (want 0)"; fi); done
