cd /verif; for p in "$@"; do python3-vt - $p <<'PY'
import sys; sys.path.insert(0,'/verif/tool'); import build as B
B.ensure_common(); e,err=B.build_native(f'/verif/props/{sys.argv[1]}/native.cc',sys.argv[1]); print(e,err)
PY
GLOG_minloglevel=2 timeout 200 build/native-$p --seconds ${SECS:-5} --seed ${SEED:-1} --out /tmp/o-$p.txt 2>&1 | tail -30; done
