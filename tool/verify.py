import sys, json, time, os
import faulthandler, signal; faulthandler.register(signal.SIGUSR1)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import irvc, loops, discharge as dis
from irvc import *

def run_harness(mod, spec, entry, budget=20, verbose=False, jobs=8, deadline=None):
    E = Executor(mod, spec, verbose)
    E.deadline = deadline
    st = State()
    t0 = time.time()
    ends = []
    E.start(st, entry, [])
    def end(s, v):
        E.stats['paths'] += 1
        ends.append(list(s.pc))
    E.explore(st, end, base=0)
    t1 = time.time()
    dis.discharge(E, budget=budget, jobs=jobs)
    E.sym_time = t1 - t0; E.solve_time = time.time() - t1
    # vacuity: some path must reach the end of the harness
    E.reach = 'unsat'
    step = max(1, len(ends) // 20); t2 = time.time()
    order = [i for k in range(step) for i in range(k, len(ends), step)]
    for i in order:
        if time.time() - t2 > 30: 
            if E.reach == 'unsat': E.reach = 'unknown'
            break
        pc = ends[i]
        s = z3.Solver(); s.set('timeout', 3000)
        for c in pc: s.add(c)
        r = s.check()
        if r == z3.sat: E.reach = 'sat'; break
        if r == z3.unknown: E.reach = 'unknown'
    return E

if __name__ == '__main__':
    mod = json.load(open(sys.argv[1]))
    spec = json.load(open(sys.argv[2])) if len(sys.argv) > 2 and sys.argv[2] != '-' else {}
    names = sys.argv[3:] or [n for n, f in mod['funcs'].items() if n.startswith('vc_h_') and not f['decl']]
    for n in names:
        sp = dict(spec.get('*', {})); sp.update(spec.get(n[5:], {}))
        try:
            E = run_harness(mod, sp, n)
        except Unsupported as e:
            print(n, 'UNSUPPORTED', e); 
            if os.environ.get('VC_TB'): raise
            continue
        ok = sum(o.result == 'valid' for o in E.obls)
        print(f'{n}: {ok}/{len(E.obls)} reach={E.reach} sym={E.sym_time:.1f}s solve={E.solve_time:.1f}s {E.stats}')
        seen = {}
        for o in E.obls:
            if o.result != 'valid' or os.environ.get('VC_ALL'):
                kk = (o.label, o.where, o.result); seen[kk] = seen.get(kk, 0) + 1
                if seen[kk] > 2: continue
                print('  ', o.result, o.solver, f'{o.time:.1f}', o.kind, o.label, '@', ' > '.join(o.stack[-3:]), (str(o.model)[:600] if o.result != 'valid' else ''))
        for kk, c in seen.items():
            if c > 2: print('   ...', c, 'x', kk)
        if os.environ.get('VC_LOOPS'):
            for k, v in E.loops_cut.items(): print('   loop', k, v)
