"""Discharge obligations with a portfolio of SMT solvers, in parallel."""
import subprocess, tempfile, os, time, json
from concurrent.futures import ThreadPoolExecutor
import z3
import poly
from terms import *
from irvc import has_quant

WORKER = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'z3worker.py')

def smt2_of(E, o):
    s = z3.Solver()
    cons = list(o.pc)
    goal = o.goal
    for c in cons: s.add(c)
    s.add(z3.Not(goal))
    inf = z3.Real('FP_INF')
    ids = set()
    stack = cons + [goal]
    seen = set()
    usedinf = False
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(e): stack.append(e.body()); continue
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() == 'FP_INF': usedinf = True
        stack.extend(e.children())
    for i, ax in E.axioms.items():
        if i in seen: s.add(ax)
    for h in relevant_hints(E, seen): s.add(h)
    if usedinf: s.add(inf > z3.RealVal('1e40'))
    return s.to_smt2()

def consts(e, cache={}):
    i = e.get_id()
    r = cache.get(i)
    if r is not None: return r[0]
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: r = frozenset([i])
    elif z3.is_quantifier(e): r = consts(e.body())
    else:
        r = frozenset()
        for c in e.children(): r |= consts(c)
    cache[i] = (r, e)
    return r

def relevant_hints(E, seen):
    return [h for h in E.hints if consts(h) <= seen]

def run_one(job):
    idx, text, names, budget, quant = job
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text); path = f.name
    t0 = time.time()
    try:
        attempts = [('z3-api', 0)]
        res = None
        outs = []
        def z3run(seed, tmo):
            p = subprocess.run(['python3-vt', WORKER, path, str(tmo), str(seed), json.dumps(names)], capture_output=True, text=True, timeout=tmo + 20)
            try: return json.loads(p.stdout)
            except Exception: return {'r': 'unknown', 'why': p.stderr[-300:]}
        def cvc5run(tmo, opts=()):
            p = subprocess.run(['cvc5', '--tlimit', str(int(tmo * 1000)), *opts, path], capture_output=True, text=True, timeout=tmo + 20)
            return {'r': p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown', 'why': p.stderr[-200:]}
        def z3old(tmo):
            p = subprocess.run(['z3', f'-T:{int(tmo)}', path], capture_output=True, text=True, timeout=tmo + 20)
            return {'r': p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'}
        plan = [('z3-5.3', lambda: z3run(0, budget)), ('cvc5', lambda: cvc5run(budget)), ('z3-5.3(seed7)', lambda: z3run(7, budget)),
                ('z3-4.8', lambda: z3old(budget)), ('cvc5-nl', lambda: cvc5run(budget, ['--nl-cov'])) , ('z3-5.3(seed3,long)', lambda: z3run(3, budget * 3))]
        last = None
        for nm, fn in plan:
            try: r = fn()
            except subprocess.TimeoutExpired: r = {'r': 'unknown', 'why': 'timeout'}
            outs.append(f"{nm}: {r['r']} {r.get('why','')}")
            if r['r'] == 'unsat': return idx, 'valid', nm, time.time() - t0, None, outs
            if r['r'] == 'sat':
                if nm.startswith('z3-5.3'):
                    return idx, 'invalid', nm, time.time() - t0, r.get('model'), outs
                last = ('invalid', nm)
                return idx, 'invalid', nm, time.time() - t0, None, outs
        return idx, 'unknown', 'portfolio', time.time() - t0, None, outs
    finally:
        os.unlink(path)

def discharge(E, budget=20, jobs=8, progress=None, stop_after=4):
    pend = []; dup = {}
    for i, o in enumerate(E.obls):
        if o.result is not None: continue
        key = (o.goal.get_id(), tuple(c.get_id() for c in o.pc))
        if key in dup: o.result = ('dup', dup[key]); continue
        dup[key] = i
        pend.append(i)
    # cheap in-process attempt first
    rest = []
    for i in pend:
        o = E.obls[i]
        t0 = time.time()
        if poly.prove(o.pc + [h for h in E.hints if not has_quant(h)], o.goal, 6):
            o.result = 'valid'; o.solver = 'poly (ideal membership)'; o.time = time.time() - t0; continue
        if E.spec.get('feas_abs'):     # nonlinear terms as opaque constants: unsat there is unsat
            s = z3.Solver(); s.set('rlimit', 3000000); s.set('timeout', 4000)
            for c in o.pc: s.add(E.lin(c))
            s.add(z3.Not(E.lin(o.goal)))
            if s.check() == z3.unsat: o.result = 'valid'; o.solver = 'z3-5.3 (nonlinear terms opaque)'; o.time = time.time() - t0; continue
        s = z3.SimpleSolver() if False else z3.Solver()
        s.set('rlimit', 300000); s.set('timeout', 1500)
        for c in o.pc: s.add(c)
        s.add(z3.Not(o.goal))
        if E.hints:
            cs = consts(o.goal)
            for c in o.pc: cs |= consts(c)
            for h in relevant_hints(E, cs): s.add(h)
        r = s.check()
        o.time = time.time() - t0
        if r == z3.unsat: o.result = 'valid'; o.solver = 'z3-5.3'
        else: rest.append(i)
    jobsl = []
    for i in rest:
        o = E.obls[i]
        names = {v.decl().name(): [n, k] for n, k, v in o.anys}
        jobsl.append((i, smt2_of(E, o), names, budget, False))
    with ThreadPoolExecutor(jobs) as ex:
        nbad = [0]
        def attempt(job):
            # once some obligations of this harness have failed, or time is up, the rest is not attempted
            if nbad[0] >= stop_after or (E.deadline and time.time() > E.deadline): return job[0], 'skipped', None, 0., None, []
            r = run_one(job)
            if r[1] != 'valid': nbad[0] += 1
            return r
        for idx, res, solver, t, model, outs in ex.map(attempt, jobsl):
            o = E.obls[idx]
            o.result = res; o.solver = solver; o.time += t; o.model = model; o.outs = outs
            if progress: progress(o)
    for o in E.obls:
        if isinstance(o.result, tuple):
            src = E.obls[o.result[1]]
            o.result = src.result; o.solver = src.solver; o.model = src.model; o.dup = True
