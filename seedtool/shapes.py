"""writes props/shapes.json from /repo's current tree: run on the unchanged tree only"""
import sys, glob, json, os
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, '/verif/tool'); sys.path.insert(0, '/verif')
import build as B, check
B.ensure_common(); B.ensure_proof_tools(); out = {}
us = sorted(glob.glob('/verif/props/*/*.proof.cc'))
with ThreadPoolExecutor(8) as ex: ms = list(ex.map(B.compile_proof, us))
for u, (m, e) in zip(us, ms):
    assert m, (u, e)
    out[os.path.basename(m).rsplit('-', 1)[0]] = dict(sorted(check.loop_shape(json.load(open(m))).items()))
json.dump(out, open('/verif/props/shapes.json', 'w'), indent=1)
print({k: len(v) for k, v in out.items()})
