# which conjuncts of an unproved goal fail
import sys
sys.path.insert(0,'/verif/tool'); sys.setrecursionlimit(20000)
import build as B, json, verify, os, z3, discharge
pid,unit,h,lab=sys.argv[1:5]
m,e=B.compile_proof(f'/verif/props/{pid}/{unit}.proof.cc'); mod=json.load(open(m))
sf=f'/verif/props/{pid}/{unit}.spec.json'; spec=json.load(open(sf)) if os.path.exists(sf) else {}
sp=dict(spec.get('*',{})); sp.update(spec.get(h,{}))
discharge.run_one=lambda j: (j[0],'unknown','none',0,None,[])
E=verify.run_harness(mod,sp,'vc_h_'+h)
def conj(g,ctx):
    if z3.is_and(g):
        for c in g.children(): yield from conj(c,ctx)
    elif z3.is_app(g) and g.decl().kind()==z3.Z3_OP_ITE:
        c,a,b=g.children(); yield from conj(a,ctx+[c]); yield from conj(b,ctx+[z3.Not(c)])
    else: yield g,ctx
k=0
for o in E.obls:
    if lab in o.label and o.result!='valid':
        print('=====',o.label,len(o.pc)); k+=1
        for g,ctx in conj(o.goal,[]):
            s=z3.Solver(); s.set('timeout',8000)
            for c in o.pc+ctx: s.add(c)
            s.add(z3.Not(g)); r=s.check()
            if r!=z3.unsat: print(' ',r,'CTX',[str(c).replace('\n',' ')[:200] for c in ctx],'\n   GOAL',str(g)[:int(os.environ.get('W',700))])
        if k>=int(os.environ.get('MAX','2')): break
