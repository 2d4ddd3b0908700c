#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from meta/*.json (one file per property)."""
import json, glob, os
V = os.path.dirname(os.path.abspath(__file__))
ms = [json.load(open(p)) for p in sorted(glob.glob(V + '/meta/C*.json'))]
with open(V + '/properties.jsonl', 'w') as f:
    for m in ms:
        f.write(json.dumps({k: m[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
man = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[],
           notes='Deciding step of every check: obligations generated from the LLVM IR of /repo\'s current sources (compiled together with the contract harness in props/<ID>/*.proof.cc) discharged by z3/cvc5. A bounded native run of the real code accompanies each, to turn failed obligations into failing inputs and as labelled stand-in for code outside the contracts.')
for m in ms:
    assert len(m['title']) <= 80, m['id']
    if 'na' in m: man['not_applicable'].append(dict(property=m['id'], reason=m['na'])); continue
    man['checks'].append(dict(property=m['id'], quick_cmd=f"python3 check.py {m['id']}", thorough_cmd=f"python3 check.py {m['id']} --tier thorough",
        evidence_file=f"evidence/{m['id']}.json",
        technique=m.get('technique', 'contract-based deductive verification: VCs from LLVM IR of the real code, discharged by z3/cvc5'),
        level=m.get('level', 'proof'), level_note=m['note']))
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(man['checks']), 'checks', len(man['not_applicable']), 'n/a')
