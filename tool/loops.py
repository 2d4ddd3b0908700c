"""Loop cutting with invariants."""
import os, sys
import re
import z3
from terms import *
from mem import *
import irvc
from irvc import Executor, LoopCtx, PathEnd, AnnotationMismatch, has_quant

def loop_spec(E, L):
    """spec['loops']: list of {fn: regex, ord: int|None, inv: [names], mode}"""
    key = (L['fn']['name'], L['h'])
    c = E.__dict__.setdefault('_lspec', {})
    if key in c: return c[key]
    r = None
    for s in E.spec.get('loops', []):
        if re.search(s['fn'], L['fn']['dem']) and (s.get('ord') is None or s['ord'] == L['ord']):
            r = s; break
    c[key] = r
    return r

def enter_loop(E, st, L, phis, count):
    fr = st.frames[-1]
    spec = loop_spec(E, L)
    lc = LoopCtx('unroll', L); lc.count = count; lc.spec = spec
    mode = spec.get('mode') if spec else None
    if mode == 'unroll':
        if count > 0 and spec.get('max'):
            # go on only if that is possible at all: unlike path pruning, with the quantified facts
            s = z3.Solver(); s.set('timeout', 8000)
            for c in st.pc: s.add(c)
            if s.check() == z3.unsat: raise PathEnd('infeasible iteration')
            if count > spec['max']: raise Unsupported('loop not bounded by ' + str(spec['max']))
        fr.loops.append(lc); return
    cut = False
    if mode == 'cut': cut = True
    else:
        cut = probe(E, st, L)
    if not cut:
        E.stats['unrolled'] += 1
        fr.loops.append(lc); return
    cut_loop(E, st, L, phis, spec)

def probe(E, st, L):
    """True if the first exit test of the loop is symbolic (needs cutting)."""
    s = st.copy(); st.token = object()
    s.dry += 1; s.wlog = set()
    fr = s.frames[-1]
    depth = len(s.frames)
    fr.loops.append(LoopCtx('unroll', L))
    n = 0
    try:
        while True:
            n += 1
            if n > 100000: return True
            f = s.frames[-1]
            I = f.fn['blocks'][f.blk][f.ip]
            r = E.step(s, f, I)
            if r is None: f.ip += 1; continue
            if r[0] == 'call': continue
            if r[0] == 'ret':
                v = r[1]; dst = f.dst; hook = f.hook
                s.frames.pop()
                if hook: v = hook(s, v)
                if len(s.frames) < depth: return False
                if dst is not None: s.frames[-1].regs[dst] = v
                s.frames[-1].ip += 1
                continue
            if r[0] == 'sw': return not isinstance(r[1], int)
            c, t, e = r[1:]
            exiting = len(s.frames) == depth and e is not None and (t in L['bs']) != (e in L['bs'])
            if not isinstance(c, bool):
                ft = E.feasible(s, c); fe = E.feasible(s, bnot(c))
                if ft and fe: 
                    return True
                c = bool(ft)
            if exiting: return False
            nxt = t if c else e
            if len(s.frames) == depth and nxt == L['h']: return False
            E.goto(s, nxt, None)
    except (PathEnd,): return False
    except ForkOn: return True

def comp_fresh(E, st, r, off, ty, v):
    if isinstance(v, Arr):
        nd = None
        if v.base is not None:
            s = v.base.sort(); nd = 0
            while s.kind() == z3.Z3_ARRAY_SORT: nd += 1; s = s.range()
        elif v.writes: nd = len(v.writes[0][0])
        if ty == 'p':
            if any(not E.same_fam(w[1], v) and not (isinstance(w[1], Ptr) and w[1].r.id == 0) for w in v.writes):
                fams = {w[1].r.id for w in v.writes if isinstance(w[1], Ptr) and w[1].r.id}
                if v.base is None and len(fams) == 1 and all(w[1].c == 0 and not w[1].ts for w in v.writes) and E.regions[list(fams)[0]].fam:
                    return Arr(fresh_arr('hv_' + r.name, 'i64', nd), (), E.regions[list(fams)[0]])
                raise Unsupported('havoc of mixed pointer array ' + r.name)
            return Arr(fresh_arr('hv_' + r.name, 'i64', nd), (), v.fam if v.fam is not None else E.comp_fam.get((r.id, off)))
        return Arr(fresh_arr(f'hv_{r.name}.{off}', ty, nd))
    if ty == 'p':
        return None   # handled by caller (pointer logic)
    if ty in ('f', 'd', 'x'): return fresh_real(f'hv_{r.name}.{off}')
    lo, hi = CANON[ty]
    x = fresh_int(f'hv_{r.name}.{off}', lo, hi)
    # keep boolean-valued bytes boolean when they were
    if ty != 'i64': st.add_fact(z3.And(x >= lo, x <= hi))
    return x

class CutInfo: pass

def havoc_phi(E, st, ins, v, tyname, name):
    if isinstance(v, bool) or (isz(v) and z3.is_bool(v)): return fresh_bool(name)
    if tyname in ('f', 'd', 'x'): return fresh_real(name)
    if tyname == 'i1': return fresh_bool(name)
    if tyname and tyname[0] == 'i':
        n = int(tyname[1:])
        if isinstance(v, Ptr): return None
        # representative: keep unsigned-ness of small unsigned values out; use signed range
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        x = fresh_int(name, lo, hi)
        if n < 64: st.add_fact(z3.And(x >= lo, x <= hi))
        return x
    return None

def delta(new, old):
    """new - old when it is a numeral (Fraction/int) else None"""
    if isinstance(new, bool) or isinstance(old, bool): return None
    if isinstance(new, (int, Fraction)) and isinstance(old, (int, Fraction)): return new - old
    if not (isinstance(new, (int, Fraction, z3.ExprRef)) and isinstance(old, (int, Fraction, z3.ExprRef))): return None
    if isz(new) and z3.is_bool(new) or isz(old) and z3.is_bool(old): return None
    if isz(old) and z3.is_real(old) or isz(new) and z3.is_real(new):
        d = rnum(z3.simplify(zr(new) - zr(old)))
        return d if isnum(d) else None
    d = num(z3.simplify(zi(new) - zi(old)))
    return d if isinstance(d, int) else None

def ptr_delta(E, new, old):
    if not (isinstance(new, Ptr) and isinstance(old, Ptr)) or new.r is not old.r: return None
    if new.r.fam:
        if not (new.obj is old.obj or (isinstance(new.obj, int) and isinstance(old.obj, int) and new.obj == old.obj) or (isz(new.obj) and isz(old.obj) and new.obj.eq(old.obj))): return None
    g, e = E.lin_diff(new, old)
    d = num(z3.simplify(zi(e))) if isz(e) else e
    return g * d if isinstance(d, int) else None

def cut_loop(E, st, L, phis, spec):
    fr = st.frames[-1]
    fn = L['fn']
    name = f"{irvc.short(fn['dem'])}@{L['ln']}"
    if os.environ.get('VC_LOOPS'): print('cut', name, file=sys.stderr)
    ptypes = [E.tname[fn['blocks'][L['h']][i]['t']] for i in range(len(phis))]
    entry = [fr.regs[p] for p in phis]
    for i, v in enumerate(entry):
        if isinstance(v, Undef): entry[i] = fr.regs[phis[i]] = havoc_phi(E, st, None, 0, ptypes[i], 'undefphi')
    invs = (spec or {}).get('inv', [])
    if isinstance(invs, str): invs = [invs]
    if not st.dry:
        E.stats['cutloops'] += 1
        E.loops_cut.setdefault(name, set()).update(invs or ['(automatic: induction variables and exit tests)'])
    # --- invariants at entry
    E.curk.append((0, len(st.frames) - 1, L))
    try:
        for iv in invs:
            g = E.eval_pure(st, 'vc_inv_' + iv, [])
            E.obligation(st, g, f'loop invariant {iv} holds on entry of {name}', 'inv-entry')
    finally: E.curk.pop()
    mark = E.nreg
    k = fresh_int('k', 0, 2**62)
    written = set()
    haveps = {}
    steps = {}
    fresh_affine = None
    pmode = ['init'] * len(phis)     # pointer phis: init / affine / obj
    cptr = {}
    mset = set()
    targets = {}                     # pointers that are null on entry: where they point to later
    fam_changed = set()
    for rnd in range(12):
        s = st.copy(); st.token = object()
        s.dry += 1
        s.wlog = set()
        hv, hc = havoc(E, s, L, phis, entry, ptypes, pmode, mset, steps, k, cptr, fam_changed, st, targets)
        lc = LoopCtx('dry', L); lc.k = k; lc.mark = mark; lc.pcmark = len(s.pc)
        s.frames[-1].loops.append(lc)
        ok = assume_inv(E, s, invs, k)
        backs = []
        def on_back(s2, lc2, ph, vals): backs.append((s2, vals))
        if ok:
            depth = len(s.frames)
            old = E.__dict__.get('_dryexit'); 
            s.frames[-1].loops[-1].info = on_back
            explore_dry(E, s, L, depth, on_back)
        # collect
        changed = False
        for s2, vals in backs:
            for w in s2.wlog:
                if w[0] == 'fam':
                    if w[1] not in fam_changed and w[1] <= 10**9: fam_changed.add(w[1]); changed = True
                    continue
                rid, off = w
                if rid > mark: continue
                if off is None:
                    for o in E.rs(s2, E.regions[rid]).comps:
                        if (rid, o) not in mset: mset.add((rid, o)); changed = True
                elif (rid, off) not in mset: mset.add((rid, off)); changed = True
            for key in mset:
                e0 = E.rs(st, E.regions[key[0]]).comps.get(key[1]); e1 = E.rs(s2, E.regions[key[0]]).comps.get(key[1])
                if e0 is not None and e1 is not None and isinstance(e0[1], Ptr) and e0[1].r.id == 0 and isinstance(e1[1], Ptr) and e1[1].r.id:
                    if null_target(targets, key, e1[1]): changed = True
            for i, v in enumerate(vals):
                if isinstance(entry[i], Ptr) and entry[i].r.id == 0 and isinstance(v, Ptr) and v.r.id:
                    if null_target(targets, ('phi', i), v): pmode[i] = 'free'; changed = True
                    continue
                if isinstance(entry[i], Ptr) and pmode[i] == 'init':
                    d = ptr_delta(E, v, hv[i])
                    if d != 0:
                        pmode[i] = ('affine', d) if d is not None else 'free'; changed = True
                elif isinstance(entry[i], Ptr) and isinstance(pmode[i], tuple):
                    d = ptr_delta(E, v, hv[i])
                    if d != pmode[i][1]: pmode[i] = 'free'; changed = True
        # affine candidates
        nsteps = {}
        if backs:
            for i in range(len(phis)):
                if isinstance(entry[i], Ptr): continue
                ds = {delta(vals[i], hv[i]) for _, vals in backs}
                if len(ds) == 1 and None not in ds: nsteps[('phi', i)] = ds.pop()
            for (rid, off) in mset:
                key = (rid, off)
                if key not in hc: continue
                ds = set()
                for s2, _ in backs:
                    e = E.rs(s2, E.regions[rid]).comps.get(off)
                    v0 = hc[key]
                    if e is None: ds.add(None); continue
                    if isinstance(v0, Ptr): ds.add(('p', ptr_delta(E, e[1], v0)))
                    elif isinstance(v0, (int, Fraction, z3.ExprRef)): ds.add(delta(e[1], v0))
                    else: ds.add(None)
                if len(ds) == 1:
                    d = ds.pop()
                    if d is not None and d != ('p', None): nsteps[key] = d
        for key in list(steps):
            if key in nsteps and nsteps[key] == steps[key]: continue
            if steps[key] is False: continue
            steps[key] = False; changed = True     # refuted
        for key, d in nsteps.items():
            if key not in steps: steps[key] = d; changed = True
        if not changed: break
    else: raise Unsupported('loop analysis did not converge: ' + name)
    # previous-iteration facts
    facts = prev_facts(E, st, L, backs, hv, hc, k, len(s.pc) if False else lc.pcmark)
    # --- the arbitrary iteration
    hv, hc = havoc(E, st, L, phis, entry, ptypes, pmode, mset, steps, k, cptr, fam_changed, st, targets)
    for f in facts: st.add_fact(f)
    lc = LoopCtx('cut', L); lc.k = k; lc.spec = spec; lc.mark = mark
    lc.info = (mset, fam_changed, invs, name)
    fr = st.frames[-1]
    fr.loops.append(lc)
    if not assume_inv(E, st, invs, k): raise PathEnd('invariant infeasible')

def assume_inv(E, s, invs, k):
    E.curk.append((k, len(s.frames) - 1, s.frames[-1].loops[-1].loop))
    try:
        for iv in invs:
            g = E.eval_pure(s, 'vc_inv_' + iv, [])
            if g is False: return False
            if g is True: continue
            if z3.is_and(g):
                for x in g.children(): s.add_fact(x)
            else: s.add_fact(g)
        if not E.feasible(s, True): return False
    finally: E.curk.pop()
    return True

def explore_dry(E, s, L, depth, on_back):
    base = depth - 1
    work = [s]
    n = 0
    while work:
        x = work.pop(); n += 1
        if n > E.maxpaths: raise Unsupported('too many paths (dry)')
        try:
            run_dry(E, x, work, L, depth, on_back)
        except PathEnd: pass

def run_dry(E, st, work, L, depth, on_back):
    # stop when leaving the loop
    st.dryexit = None
    def guard_goto(s, b):
        if len(s.frames) == depth and b not in L['bs']: raise PathEnd('exit')
    orig = E.goto
    E.run_path_guard(st, work, on_back, guard_goto, depth)

def _run_path_guard(self, st, work, on_back, guard, depth):
    saved = self.__dict__.get('_guard')
    self._guard = guard
    try:
        self.run_path(st, work, lambda s, v: None, on_back, depth - 1)
    finally:
        self._guard = saved
Executor.run_path_guard = _run_path_guard

_goto = Executor.goto
def goto(self, st, blk, on_back):
    g = self.__dict__.get('_guard')
    if g is not None: g(st, blk)
    return _goto(self, st, blk, on_back)
Executor.goto = goto

def havoc(E, s, L, phis, entry, ptypes, pmode, mset, steps, k, cptr, fam_changed, orig, targets):
    """put s into an arbitrary iteration k; returns (phi values, component values)"""
    fr = s.frames[-1]
    s.add_fact(k >= 0)
    hv = []
    for i, p in enumerate(phis):
        v0 = entry[i]
        if isinstance(v0, Ptr):
            if ('phi', i) in targets: v = null_or(E, s, targets[('phi', i)], f'phi{i}')
            elif pmode[i] == 'init': v = v0
            elif isinstance(pmode[i], tuple):
                v = v0.plus(0, ((pmode[i][1], k),))
            else:
                v = free_ptr(E, s, v0, f'phi{i}')
        elif isinstance(v0, (Fn,)): v = v0
        elif isinstance(v0, (Packed, Agg)): raise Unsupported('packed phi in loop')
        else:
            d = steps.get(('phi', i), None)
            if d is None or d is False: v = havoc_phi(E, s, None, v0, ptypes[i], f'phi{i}')
            else:
                v = affine(v0, d, k)
                if isz(v) and z3.is_int(v) and phi_nsw(L, fr.fn, p):
                    n = int(ptypes[i][1:])
                    s.add_fact(z3.And(v >= -(1 << (n - 1)), v <= (1 << (n - 1)) - 1))
        hv.append(v); fr.regs[p] = v
    hc = {}
    for (rid, off) in sorted(mset, key=lambda x: (x[0], x[1])):
        r = E.regions[rid]
        m = E.rsw(s, r)
        e = m.comps.get(off)
        if e is None:
            # created inside the loop: unknown before -> leave unknown (lazy), but
            # it may differ per iteration, so use a fresh value
            ty = E.comp_ty.get((rid, off))
            if ty is None: continue
            nd = E.comp_nd.get((rid, off), 0)
            if nd == 0:
                nv = E.fresh_val(s, ty, f'hv_{r.name}.{off}')
            else:
                fam = E.comp_fam.get((rid, off))
                if ty == 'p' and fam is None: fam = E.lazy(s, r, off, ty, nd).fam
                nv = Arr(fresh_arr(f'hv_{r.name}.{off}', 'i64' if ty == 'p' else ty, nd), (), fam)
            m.comps[off] = (ty, nv); hc[(rid, off)] = nv; continue
        ty, v0 = e
        d = steps.get((rid, off))
        if isinstance(v0, Ptr):
            if (rid, off) in targets: nv = null_or(E, s, targets[(rid, off)], f'{r.name}.{off}')
            elif isinstance(d, tuple) and d[1] is not None: nv = v0.plus(0, ((d[1], k),)) if d[1] else v0
            elif d is None and (rid, off) not in cptr: nv = v0; cptr[(rid, off)] = 1
            else: nv = free_ptr(E, s, v0, f'{r.name}.{off}')
        elif isinstance(v0, Packed): raise Unsupported('packed component in loop')
        elif isinstance(v0, Fn): nv = v0
        elif isinstance(v0, Undef): nv = E.fresh_val(s, ty, 'hv')
        elif d is not None and d is not False and not isinstance(v0, Arr): nv = affine(v0, d, k)
        else: nv = comp_fresh(E, s, r, off, ty, v0)
        m.comps[off] = (ty, nv)
        hc[(rid, off)] = nv
    for rid in fam_changed:
        n0 = orig.famnext.get(rid, 1) if orig is not s else s.famnext.get(rid, 1)
        f = fresh_int('famnext', 1, 2**62)
        s.add_fact(f >= zi(n0)); s.famnext[rid] = f
    return hv, hc

def phi_nsw(L, fn, reg):
    for I in fn['blocks'][L['h']]:
        if I['o'] == 'phi' and I.get('r') == reg:
            for b, o in I['in']:
                if b in L['bs']:
                    if o[0] != 'v': return False
                    for bb in L['b']:
                        for J in fn['blocks'][bb]:
                            if J.get('r') == o[1]:
                                if J['o'] not in ('add', 'sub') or not (J.get('fl', 0) & 1): return False
    return True

def null_target(targets, key, v):
    """the loop-carried pointer `key`, null on entry, becomes v; True if new"""
    t = targets.get(key)
    if t is None: targets[key] = v; return True
    if t.r is not v.r or (t.r.fam and (v.ts or v.c != t.c)) or (not t.r.fam and v.c % t.r.stride != t.c % t.r.stride): raise Unsupported('loop-carried pointer with several targets')
    return False

def null_or(E, s, t, nm):
    """null or a pointer into the region of t. A null pointer into an array
    cannot be represented: comparing such a pointer with null is refused."""
    if t.r.fam and not t.ts:
        o = fresh_int('obj_' + nm, 0, INF); s.add_fact(o >= 0)
        return Ptr(t.r, o, t.c)
    if t.r.stride and not t.r.fam:
        x = fresh_int('mn_' + nm, -2**62, 2**62); MAYBE_NULL.add(x.get_id())
        return Ptr(t.r, t.obj, t.c % t.r.stride).plus(0, ((t.r.stride, x),))
    raise Unsupported('loop-carried pointer ' + nm)

def free_ptr(E, s, v0, nm):
    if v0.r.fam and v0.c == 0 and not v0.ts:
        o = fresh_int('obj_' + nm, 0, INF); s.add_fact(o >= 0)
        return Ptr(v0.r, o)
    if v0.r.stride:
        x = fresh_int('idx_' + nm, -2**62, 2**62)
        return Ptr(v0.r, v0.obj, v0.c % v0.r.stride).plus(0, ((v0.r.stride, x),))
    raise Unsupported('loop-carried pointer ' + nm)

def affine(v0, d, k):
    if isinstance(v0, bool): raise Unsupported('affine bool')
    if isinstance(d, Fraction) or isinstance(v0, Fraction) or (isz(v0) and z3.is_real(v0)):
        return radd(v0, rmul(Fraction(d), int2real(k))) if d else v0
    return add(v0, mul(k, d))

def free_vars(e, cache={}):
    i = e.get_id()
    r = cache.get(i)
    if r is not None: return r
    keep(e)
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: r = frozenset([i])
    elif z3.is_quantifier(e): r = free_vars(e.body())
    else:
        r = frozenset()
        for c in e.children(): r |= free_vars(c)
    cache[i] = r
    return r

def prev_facts(E, st, L, backs, hv, hc, k, pcmark):
    """facts of iteration k-1 that every back edge path established and that
    only mention the iteration counter and loop-invariant symbols."""
    if not backs: return [k == 0]
    common = None
    for s2, _ in backs:
        ids = {}
        for c in s2.pc[pcmark:]:
            ids[c.get_id()] = c
        common = ids if common is None else {i: c for i, c in common.items() if i in ids}
    # symbols that vary in the loop
    base = set()
    for c in st.pc: base |= free_vars(c)
    out = []
    kid = k.get_id()
    # every symbol created after the loop entry other than k is per-iteration
    limit = int(k.decl().name().split('!')[1])
    varying = set()
    for c in common.values():
        ok = True
        for vid in free_vars(c):
            if vid == kid: continue
            nm = KEEP[vid].decl().name()
            if '!' in nm and int(nm.rsplit('!', 1)[1]) >= limit: ok = False; break
        if not ok: continue
        if has_quant(c): continue
        prev = z3.substitute(c, (k, k - 1))
        out.append(z3.Implies(k > 0, prev))
        # counting up to a fixed bound: i != n with unit step
        n = neq_form(c)
        if n is not None:
            a, b = n
            d = num(z3.simplify(z3.substitute(a - b, (k, k + 1)) - (a - b)))
            if d == 1:
                at0 = z3.substitute(a - b, (k, z3.IntVal(0)))
                out.append(z3.Implies(at0 <= 0, a - b <= 0))
            elif d == -1:
                at0 = z3.substitute(a - b, (k, z3.IntVal(0)))
                out.append(z3.Implies(at0 >= 0, a - b >= 0))
    return out

def neq_form(c):
    if z3.is_not(c) and z3.is_eq(c.arg(0)) and z3.is_int(c.arg(0).arg(0)):
        return c.arg(0).arg(0), c.arg(0).arg(1)
    if z3.is_distinct(c) and c.num_args() == 2 and z3.is_int(c.arg(0)): return c.arg(0), c.arg(1)
    return None

def backedge(E, st, lc, phis, vals, on_back):
    if lc.kind == 'dry':
        lc.info(st, lc, phis, list(vals)); return
    mset, fam_changed, invs, name = lc.info
    # fr.blk must be the header for where(); values already assigned
    E.curk.append((add(lc.k, 1), len(st.frames) - 1, lc.loop))
    try:
        for iv in invs:
            g = E.eval_pure(st, 'vc_inv_' + iv, [])
            E.obligation(st, g, f'loop invariant {iv} preserved by {name}', 'inv-step')
    finally: E.curk.pop()
    for w in (st.wlog or ()): pass

Executor.enter_loop = lambda self, st, L, phis, count: enter_loop(self, st, L, phis, count)
Executor.backedge = lambda self, st, lc, phis, vals, on_back: backedge(self, st, lc, phis, vals, on_back)

def find_local(self, st, name, ty):
    """storage of a source-level local of the innermost non-spec frame."""
    _, fi, L = self.curk[-1]
    fr = st.frames[fi]
    # search this frame, then callers' frames are not visible
    cands = []
    for d in fr.fn['dbg']:
        v = d['v']
        if v[0] != 'v' or fr.regs[v[1]] is None: continue
        cands.append(d)
    pick = [d for d in cands if (re.search(name[1:], d['nm']) if name[:1] == '~' else d['nm'] == name)]
    if not pick and ty:
        pick = [d for d in cands if re.search(ty, d['ty'])]
        if len({d['nm'] for d in pick}) > 1 or any('sret' in a for a in fr.fn['args']): pick = [d for d in pick if d['ty'][-1:] not in '&*']
        names = {d['nm'] for d in pick}
        if len(names) > 1: raise AnnotationMismatch(f'ambiguous local {name}:{ty}')
    if not pick and name[:1] != '~':
        for a in fr.fn['args']:      # named return value built in place
            if 'sret' in a and fr.regs[a['id']] is not None: return fr.regs[a['id']]
    if not pick: raise AnnotationMismatch(f'no local {name} in {fr.fn["dem"]}')
    # prefer declared (memory) variables, then header phis
    decl = [d for d in pick if d['decl']]
    if decl: return fr.regs[decl[0]['v'][1]]
    hdr = None
    for d in pick:
        if L is not None:
            for I in fr.fn['blocks'][L['h']]:
                if I['o'] != 'phi': break
                if I['r'] == d['v'][1]: hdr = d
    d = hdr or pick[-1]
    v = fr.regs[d['v'][1]]
    if isinstance(v, Ptr) and (d['ty'].endswith('&') or d['ty'].endswith('*')) : return v if d['ty'].endswith('&') else self.box(st, v, 'p')
    return self.box(st, v, {'float': 'f', 'const float': 'f', 'int': 'i32', 'const int': 'i32'}.get(d['ty']) if not isinstance(v, bool) else None)

def box(self, st, v, ty):
    r = self.new_region(st, 'box', kind='stack', size=8)
    if ty is None:
        if isinstance(v, bool) or (isz(v) and z3.is_bool(v)): ty = 'i8'; v = b2i(v)
        elif isinstance(v, Fraction) or (isz(v) and z3.is_real(v)): ty = 'd'
        elif isinstance(v, Ptr): ty = 'p'
        else: ty = 'i64'
    m = RS(); m.own = st.token; m.comps[0] = (ty, v); st.mem[r.id] = m
    return Ptr(r)
Executor.find_local = find_local
Executor.box = box
