import sys
sys.path.insert(0,'/verif/tool'); sys.setrecursionlimit(20000)
import build as B, json, verify, time, discharge
pid,unit,h,lab=sys.argv[1:5]
import z3; z3.set_option(max_args=10**6,max_lines=10**6,max_depth=10**6,max_visited=10**7)
m,e=B.compile_proof(f'/verif/props/{pid}/{unit}.proof.cc')
mod=json.load(open(m)); 
import os
sf=f'/verif/props/{pid}/{unit}.spec.json'
spec=json.load(open(sf)) if os.path.exists(sf) else {}
sp=dict(spec.get('*',{})); sp.update(spec.get(h,{}))
E=verify.run_harness(mod,sp,'vc_h_'+h)
W=int(sys.argv[5]) if len(sys.argv)>5 else 300
for o in E.obls:
    if lab in o.label and o.result!='valid':
        print('=====',o.label,o.result)
        for c in o.pc[-int(__import__("os").environ.get("LAST","9999")):]: print('  ',str(c).replace('\n',' ')[:W])
        print('HINTS'); 
        for c in E.hints: print('  ',str(c).replace('\n',' ')[:W])
        print('GOAL',str(o.goal)[:3000]); break
