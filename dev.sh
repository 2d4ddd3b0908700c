#!/bin/bash
# dev helper: dev.sh ID unit [harness...]
cd /verif
python3-vt - "$@" <<'PY'
import sys, subprocess
sys.path.insert(0,'tool'); import build as B
B.ensure_common()
pid, unit = sys.argv[1:3]
m, e = B.compile_proof(f'/verif/props/{pid}/{unit}.proof.cc')
if e: print(e); sys.exit(1)
import os
sp = f'/verif/props/{pid}/{unit}.spec.json'
subprocess.run(['python3-vt','tool/verify.py', m, sp if os.path.exists(sp) else '-'] + ['vc_h_'+x for x in sys.argv[3:]])
PY
