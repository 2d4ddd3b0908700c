"""irvc: contract verifier over LLVM IR extracted from the real sources."""
import json, sys, time, re, itertools
from fractions import Fraction
import z3
from terms import *
from mem import *
import mem as memmod

class PathEnd(Exception): pass

class LoopCtx:
    __slots__ = ('kind', 'loop', 'k', 'spec', 'count', 'info', 'mark', 'pcmark')
    def __init__(self, kind, loop):
        self.kind = kind; self.loop = loop; self.k = None; self.spec = None; self.count = 0
        self.info = None; self.mark = 0; self.pcmark = 0
    def copy(self):
        c = LoopCtx(self.kind, self.loop); c.k = self.k; c.spec = self.spec; c.count = self.count
        c.info = self.info; c.mark = self.mark; c.pcmark = self.pcmark
        return c

class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'ip', 'prev', 'dst', 'loops', 'hook')
    def copy(self):
        f = Frame(); f.fn = self.fn; f.regs = list(self.regs); f.blk = self.blk; f.ip = self.ip
        f.prev = self.prev; f.dst = self.dst; f.loops = [l.copy() for l in self.loops]; f.hook = self.hook
        return f

class State:
    def __init__(self):
        self.frames = []; self.mem = {}; self.token = object()
        self.pc = []; self.facts = {}; self.known = {}
        self.quant = 0; self.qmark = 0; self.wlog = None; self.dry = 0
        self.anys = []; self.famnext = {}; self.base = 0; self.newregs = []
    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem); self.token = object()
        s.pc = list(self.pc); s.facts = dict(self.facts); s.known = dict(self.known)
        s.quant = self.quant; s.qmark = self.qmark
        s.wlog = self.wlog; s.dry = self.dry; s.anys = list(self.anys)
        s.famnext = dict(self.famnext); s.base = self.base
        return s
    def fact(self, e):
        return self.facts.get(e.get_id())
    def add_fact(self, e):
        if isinstance(e, bool):
            if not e: raise PathEnd('assumed false')
            return
        i = e.get_id()
        if self.facts.get(i) is True: return
        keep(e)
        self.facts[i] = True
        self.pc.append(e)
        if z3.is_not(e): self.facts[e.arg(0).get_id()] = False; keep(e.arg(0))
        elif z3.is_and(e):
            for c in e.children(): keep(c); self.facts[c.get_id()] = True
        else:
            n = keep(z3.Not(e)); self.facts[n.get_id()] = False

class Obligation:
    def __init__(self, label, where, pc, goal, kind, anys, stack):
        self.label = label; self.where = where; self.pc = pc; self.goal = goal; self.kind = kind
        self.anys = anys; self.stack = stack; self.result = None; self.solver = None; self.time = 0; self.model = None

def has_quant(e, cache={}):
    i = e.get_id()
    r = cache.get(i)
    if r is not None: return r
    keep(e)
    if z3.is_quantifier(e): r = True
    else: r = any(has_quant(c) for c in e.children())
    cache[i] = r
    return r

def band(a, b):
    if a is True: return b
    if b is True: return a
    if a is False or b is False: return False
    l = list(a.children()) if z3.is_and(a) else [a]
    l += list(b.children()) if z3.is_and(b) else [b]
    return keep(z3.And(*l))

def bor(a, b):
    if a is False: return b
    if b is False: return a
    if a is True or b is True: return True
    return keep(z3.Or(a, b))

def merge_tree(paths, i):
    """paths: (conditions, result); conditions share prefixes and split on c / not c"""
    if not paths: return False
    if all(v is False for _, v in paths): return False
    if len(paths) == 1:
        d, v = paths[0]
        r = v
        return band(True if not d[i:] else keep(z3.And(*d[i:])) if len(d) - i > 1 else d[i], r)
    groups = {}
    for d, v in paths:
        if len(d) <= i:       # ends here while others go on: plain disjunction
            return keep(z3.Or(*[zb(band(True if not d[i:] else keep(z3.And(*d[i:])), v)) for d, v in paths]))
        groups.setdefault(d[i].get_id(), (d[i], []))[1].append((d, v))
    g = list(groups.values())
    if len(g) == 1:
        return band(g[0][0], merge_tree(g[0][1], i + 1))
    if len(g) == 2:
        (c1, p1), (c2, p2) = g
        if z3.is_not(c1) and not z3.is_not(c2): (c1, p1), (c2, p2) = (c2, p2), (c1, p1)
        if z3.is_not(c2) and c2.arg(0).eq(c1):
            a = merge_tree(p1, i + 1); b = merge_tree(p2, i + 1)
            if a is b or (isz(a) and isz(b) and a.eq(b)): return a
            if b is False: return band(c1, a)
            if a is False: return band(c2, b)
            if a is True: return bor(c1, b)
            if b is True: return bor(c2, a)
            return keep(z3.If(c1, a, b))
    r = False
    for c, ps in g: r = bor(r, band(c, merge_tree(ps, i + 1)))
    return r

def short(d):
    return d.replace('(anonymous namespace)::', '').split('(')[0]

class Executor(Memory):
    def __init__(self, mod, spec, verbose=False):
        self.mod = mod; self.spec = spec; self.verbose = verbose
        self.types = mod['types']; self.funcs = mod['funcs']; self.globals = mod['globals']
        self.regions = {0: NULLREG}; self.nreg = 0
        self.globreg = {}; self.obls = []; self.axioms = {}; self.axdone = set()
        self.funcs_seen = {}; self.loops_cut = {}; self.trusted = set(); self.covered = {}
        self.stats = dict(paths=0, instrs=0, feas=0, cutloops=0, unrolled=0)
        self._leafcache = {}; self.lazymemo = {}; self.fams = {}; self.lazylink = {}; self.curk = []; self.comp_ty = {}; self.comp_nd = {}; self.comp_fam = {}
        self.solver = None; self.stack = []
        self.uf = {}
        self.obl_seen = set(); self.hints = []
        self.maxpaths = spec.get('max_paths', 20000)
        self.deadline = None
        self.assumed_nooverflow = 0
        self.prep()

    # ------------------------------------------------------------- module prep
    def prep(self):
        self.tname = []
        for t in self.types:
            self.tname.append(t if isinstance(t, str) else None)
        for n, f in self.funcs.items():
            f['name'] = n
            if f['decl']: continue
            L = {}
            for l in sorted(f['loops'], key=lambda l: (l['ln'], l['h'])):
                l['bs'] = set(l['b']); l['fn'] = f
                L[l['h']] = l
            # ordinals in source order
            for i, l in enumerate(sorted(L.values(), key=lambda l: (l['ln'], l['h']))): l['ord'] = i
            f['L'] = L
            f['inner'] = {}
        self.byname = {}

    def leaves(self, tid):
        r = self._leafcache.get(tid)
        if r is not None: return r
        t = self.types[tid]
        out = []
        if isinstance(t, str):
            if t in SIZE: out = [(0, t)]
            else: out = None
        elif 's' in t:
            for o, ft in t['s']:
                sub_ = self.leaves(ft)
                if sub_ is None: out = None; break
                out += [(o + so, st) for so, st in sub_]
        elif 'a' in t:
            n, et = t['a']
            sub_ = self.leaves(et)
            if n > 64 or sub_ is None: out = None
            else:
                for i in range(n): out += [(i * t['es'] + so, st) for so, st in sub_]
        elif 'vec' in t:
            n, et = t['vec']
            sub_ = self.leaves(et)
            for i in range(n): out += [(i * t['es'] + so, st) for so, st in sub_]
        if out is not None:
            # padding arrays of i8 are not fields we care about
            pass
        self._leafcache[tid] = out
        return out

    def new_region(self, st, name, **kw):
        self.nreg += 1
        r = Region(self.nreg, name, **kw)
        self.regions[r.id] = r
        return r

    def global_ptr(self, st, name):
        r = self.globreg.get(name)
        if r is None:
            g = self.globals[name]
            self.nreg += 1
            r = Region(self.nreg, name, kind='global', size=g['sz'], ty=g['ty'])
            r.const = g['const']
            self.regions[r.id] = r
            self.globreg[name] = r
        if r.id not in st.mem:
            g = self.globals[name]
            m = RS(); m.own = st.token; st.mem[r.id] = m
            w, st.wlog = st.wlog, None
            q, st.quant = st.quant, 0
            init = g.get('init')
            if init is not None:
                self.init_global(st, Ptr(r), g['ty'], init, r)
            st.wlog = w; st.quant = q
        return Ptr(r)

    def init_global(self, st, p, tid, init, r):
        t = self.types[tid]
        k = init[0]
        if k == 'z':
            L = self.leaves(tid)
            if L is None: r.zero = True; return
            for o, ty in L: self.store(st, self.at(p, o), ty, self.zero_of(ty))
            return
        if k == 'u': return
        if k == 'agg':
            if 's' in t:
                for (o, ft), v in zip(t['s'], init[1]): self.init_global(st, self.at(p, o), ft, v, r)
            else:
                n, et = t['a'] if 'a' in t else t['vec']
                if n > 16: self.add_dim(st, p, t['es'], n)
                if n > 16 and self.types[et] == 'i8':
                    # strings etc: build in one go
                    off, idx = self.norm(st, p)
                    ws = tuple((idx[:-1] + (i,), self.const(st, v, 'i8')) for i, v in enumerate(init[1]))
                    self.rsw(st, p.r).comps[off] = ('i8', Arr(None, ws)); return
                for i, v in enumerate(init[1]): self.init_global(st, self.at(p, i * t['es']), et, v, r)
            return
        self.store(st, p, t, self.const(st, init, t))

    # ------------------------------------------------------------- constants
    def const(self, st, o, ty=None):
        k = o[0]
        if k == 'i':
            if o[2] == 1: return bool(o[1])
            return o[1]
        if k == 'I': return int(o[1])
        if k == 'f':
            s = o[1]
            if s in ('inf', '-inf'):
                v = keep(z3.Real('FP_INF'))
                return v if s == 'inf' else -v
            if s == 'nan': return fresh_real('nan')
            return Fraction(float.fromhex(s))
        if k == 'n': return NULL
        if k == 'u':
            return self.undef(o[1])
        if k == 'z': return self.zero_agg(o[1])
        if k == 'g': return self.global_ptr(st, o[1])
        if k == 'fn': return Fn(o[1])
        if k == 'ge':
            b = self.const(st, o[1])
            return b.plus(o[2])
        if k == 'cast': return self.const(st, o[2])
        if k == 'agg': return Agg([self.const(st, x) for x in o[1]])
        raise Unsupported(f'constant {o}')

    def undef(self, tid):
        t = self.types[tid]
        if isinstance(t, dict) and 's' in t: return Agg([self.undef(f) for _, f in t['s']])
        return UNDEF

    def zero_agg(self, tid):
        t = self.types[tid]
        if isinstance(t, str): return self.zero_of(t) if t != 'i1' else False
        if 's' in t: return Agg([self.zero_agg(f) for _, f in t['s']])
        return Agg([self.zero_agg((t.get('a') or t.get('vec'))[1]) for _ in range((t.get('a') or t.get('vec'))[0])])

    def val(self, st, f, o):
        if o[0] == 'v':
            v = f.regs[o[1]]
            if v is None: raise Unsupported(f'undefined register {o} in {f.fn["name"]}')
            return v
        return self.const(st, o)

    # ------------------------------------------------------------- solver help
    def _sync(self, pc):
        if self.solver is None:
            self.solver = z3.SimpleSolver() if False else z3.Solver()
            self.solver.set('rlimit', 2000000)
            self.solver.set('timeout', self.spec.get('feas_ms', 2000))
            self.stack = []
        q = [c for c in pc if not has_quant(c)]
        n = 0
        while n < len(self.stack) and n < len(q) and self.stack[n].get_id() == q[n].get_id(): n += 1
        if n < len(self.stack):
            self.solver.pop(len(self.stack) - n); del self.stack[n:]
        for c in q[n:]:
            self.solver.push(); self.solver.add(self.lin(c)); self.stack.append(c)

    def lin(self, e):
        """with spec 'feas_abs': nonlinear subterms replaced by unconstrained constants (path pruning only:
        weaker hypotheses can only keep more paths and prove fewer range facts)"""
        if not self.spec.get('feas_abs') or isinstance(e, bool): return e
        c = self.__dict__.setdefault('_lin', {})
        i = e.get_id()
        r = c.get(i)
        if r is not None: return r[1]
        k = e.decl().kind() if z3.is_app(e) else None
        nl = False
        if k == z3.Z3_OP_MUL: nl = sum(1 for x in e.children() if not (z3.is_int_value(x) or z3.is_rational_value(x))) > 1
        elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM): nl = not (z3.is_int_value(e.arg(1)) or z3.is_rational_value(e.arg(1)))
        if nl: x = z3.Const(f'nl!{i}', e.sort())
        elif z3.is_app(e) and e.num_args():
            ch = [self.lin(y) for y in e.children()]
            x = e if all(a.eq(b) for a, b in zip(ch, e.children())) else e.decl()(*ch) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT) else \
                {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_ADD: lambda *a: z3.Sum(list(a)), z3.Z3_OP_MUL: lambda *a: z3.Product(list(a)), z3.Z3_OP_DISTINCT: z3.Distinct}[k](*ch)
        else: x = e
        c[i] = (keep(e), keep(x))
        return x

    def feasible(self, st, cond):
        """may pc & cond hold?"""
        if isinstance(cond, bool):
            if not cond: return False
            cond = None
        if cond is not None:
            f = st.fact(cond)
            if f is not None: return f
        if st.quant and not self.spec.get('pure_feas') and cond is not None: return True
        self.stats['feas'] += 1
        if self.deadline and time.time() > self.deadline: raise Unsupported('time limit in symbolic execution')
        self._sync(st.pc)
        r = self.solver.check(self.lin(cond)) if cond is not None else self.solver.check()
        return r != z3.unsat

    def provable(self, st, cond):
        if isinstance(cond, bool): return cond
        f = st.fact(cond)
        if f is not None: return f
        self.stats['feas'] += 1
        self._sync(st.pc)
        return self.solver.check(z3.Not(self.lin(cond))) == z3.unsat

    def nonneg(self, st, e):
        """e >= 0 with no hypotheses (sums of squares)"""
        c = self.__dict__.setdefault('_nn', {})
        r = c.get(e.get_id())
        if r is None:
            s = z3.Solver(); s.set('timeout', 300); s.add(e < 0)
            r = c[e.get_id()] = s.check() == z3.unsat; keep(e)
        return r

    def enum_values(self, st, t, limit):
        if isinstance(t, int): return [t]
        self._sync(st.pc)
        out = []
        self.solver.push()
        try:
            while True:
                r = self.solver.check()
                if r == z3.unsat: return out
                if r != z3.sat: return None
                v = self.solver.model().eval(t, model_completion=True)
                v = v.as_long()
                out.append(v)
                if len(out) > limit: return None
                self.solver.add(t != v)
        finally:
            self.solver.pop()

    def need_axiom(self, base, ptr=False):
        i = base.get_id()
        info = BASEINFO.get(i)
        if info is None: return
        ty, n, a = info
        if ptr and i not in self.axdone:
            self.axdone.add(i)
            vs = [z3.Int(f'ax{j}') for j in range(n)]
            s = sel(a, vs)
            self.axioms[i] = z3.ForAll(vs, s >= 0, patterns=[s])
            return
        if i in self.axdone or ty not in CANON or ty == 'i64': return
        self.axdone.add(i)
        lo, hi = CANON[ty]
        vs = [z3.Int(f'ax{j}') for j in range(n)]
        s = sel(a, vs)
        self.axioms[i] = z3.ForAll(vs, z3.And(s >= lo, s <= hi), patterns=[s])

    # ------------------------------------------------------------- ints
    def signed(self, st, v, n):
        if n > 64: return v
        if st.quant and isz(v) and id(v) in self.__dict__.get('mathterms', ()): return v   # specifications: mathematical integers
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        return self.wrap(st, v, lo, hi, n)

    def unsigned(self, st, v, n):
        return self.wrap(st, v, 0, (1 << n) - 1, n)

    def wrap(self, st, v, lo, hi, n):
        M = 1 << n
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int):
            v %= M
            return v if v <= hi else v - M
        l, h = itv(v)
        if l >= lo and h <= hi: return v
        if n == 64 and lo < 0 and isz(v) and v.get_id() in self.__dict__.get('ptrdiffs', ()): return v
        if isinstance(v, Packed): raise Unsupported('packed arithmetic')
        if self.provable(st, z3.And(v >= lo, v <= hi)): return v
        # one-sided corrections
        if l >= lo - M and h <= hi + M:
            t = v
            if l < lo: t = ite(v < lo, add(v, M), t)
            if h > hi: t = ite(v > hi, sub(v, M), t)
            return set_itv(t, lo, hi)
        if lo == 0: return fmod(v, M)
        return set_itv(sub(fmod(add(v, -lo), M), -lo), lo, hi)

    def canon(self, st, v, ty):
        lo, hi = CANON[ty]
        if ty == 'i1': return v
        return self.wrap(st, v, lo, hi, SIZE[ty] * 8)

    def bad_path(self, st, why):
        self.obligation(st, False, why, 'safety')
        raise PathEnd(why)

    # ------------------------------------------------------------- obligations
    def where(self, st):
        out = []
        for f in st.frames:
            try: ln = f.fn['blocks'][f.blk][f.ip].get('ln')
            except IndexError: ln = None
            out.append(f"{short(f.fn['dem'])}:{ln}")
        return out

    def obligation(self, st, goal, label, kind):
        if st.dry:
            if goal is False: raise PathEnd('dry')
            if isz(goal): st.add_fact(goal)
            return
        if goal is True:
            self.record(st, True, label, kind); return
        self.record(st, zb(goal), label, kind)
        if goal is False: raise PathEnd('failed')
        st.add_fact(goal)

    def record(self, st, goal, label, kind):
        w = self.where(st)
        o = Obligation(label, w[-1] if w else '', list(st.pc), goal, kind, list(st.anys), w)
        if goal is True: o.result = 'valid'; o.solver = 'simplifier'
        self.obls.append(o)

    # ------------------------------------------------------------- execution
    def start(self, st, fname, args, dst=None):
        f = self.funcs[fname]
        fr = Frame(); fr.fn = f; fr.regs = [None] * f['nv']; fr.blk = 0; fr.ip = 0; fr.prev = -1
        fr.dst = dst; fr.loops = []; fr.hook = None
        for a, v in zip(f['args'], args): fr.regs[a['id']] = v
        st.frames.append(fr)
        if f.get('file'): self.funcs_seen.setdefault(fname, 0)
        if fname in self.funcs_seen: self.funcs_seen[fname] += 1
        if len(st.frames) > 200: raise Unsupported('call depth')

    def explore(self, st, on_end, on_back=None, base=None):
        """run st until its frame count drops to base (on_end(st, ret))."""
        work = [st]
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > self.maxpaths: raise Unsupported('too many paths')
            if self.deadline and time.time() > self.deadline: raise Unsupported('time limit in symbolic execution')
            try:
                self.run_path(s, work, on_end, on_back, base)
            except PathEnd as e:
                pass

    def run_path(self, st, work, on_end, on_back, base):
        while True:
            fr = st.frames[-1]
            ins = fr.fn['blocks'][fr.blk][fr.ip]
            self.stats['instrs'] += 1
            try:
                r = self.step(st, fr, ins)
            except ForkOn as e:
                self.fork(st, e.conds, work)
                return
            if r is None:
                fr.ip += 1
                continue
            kind = r[0]
            if kind == 'call': continue        # new frame pushed
            if kind == 'br':
                c, t, e = r[1], r[2], r[3]
                if isinstance(c, bool):
                    self.goto(st, t if c else e, on_back); continue
                ft = self.feasible(st, c)
                nc = z3.Not(c) if not z3.is_not(c) else keep(c.arg(0))
                fe = self.feasible(st, nc)
                if ft and fe:
                    if st.quant == 0 or True:
                        s2 = st.copy()
                        try:
                            s2.add_fact(nc); self.goto(s2, e, on_back); work.append(s2)
                        except PathEnd: pass
                        st.token = object()
                    st.add_fact(c); self.goto(st, t, on_back)
                elif ft: st.add_fact(c); self.goto(st, t, on_back)
                elif fe: st.add_fact(nc); self.goto(st, e, on_back)
                else: raise PathEnd('infeasible')
                continue
            if kind == 'sw':
                v, cases, d, n = r[1:]
                if isinstance(v, int):
                    v = v % (1 << n)
                    for cv, b in cases:
                        if cv % (1 << n) == v: self.goto(st, b, on_back); break
                    else: self.goto(st, d, on_back)
                    continue
                rest = []
                for cv, b in cases:
                    e = icmp_eq(v, cv)
                    if e is False: continue
                    if isinstance(e, bool) or self.feasible(st, e):
                        s2 = st.copy(); st.token = object()
                        try:
                            s2.add_fact(e); self.goto(s2, b, on_back); work.append(s2)
                        except PathEnd: pass
                    rest.append(z3.Not(zb(e)))
                if not rest or self.feasible(st, z3.And(*rest)):
                    if rest: st.add_fact(z3.And(*rest))
                    self.goto(st, d, on_back); continue
                raise PathEnd('')
            if kind == 'ret':
                v = r[1]
                dst = fr.dst; hook = fr.hook
                st.frames.pop()
                if hook is not None: v = hook(st, v)
                if base is not None and len(st.frames) == base:
                    on_end(st, v); return
                if not st.frames:
                    on_end(st, v); return
                top = st.frames[-1]
                if dst is not None: top.regs[dst] = v
                top.ip += 1
                continue
            raise Unsupported(kind)

    def fork(self, st, conds, work):
        for c in conds:
            if c[0] == 'known':
                e = zi(c[1]) == c[2]
                if not self.feasible(st, e): continue
                s2 = st.copy(); st.token = object()
                s2.add_fact(e); s2.known[c[1].get_id()] = c[2]; keep(c[1])
                work.append(s2)
            else:
                e = c[1] if c[2] else z3.Not(c[1])
                if not self.feasible(st, e): continue
                s2 = st.copy(); st.token = object()
                s2.add_fact(e)
                s2.facts[c[1].get_id()] = c[2]; keep(c[1])
                work.append(s2)

    # branch to a block, with phi evaluation and loop handling
    def goto(self, st, blk, on_back):
        fr = st.frames[-1]
        fn = fr.fn
        # leave loops
        while fr.loops and blk not in fr.loops[-1].loop['bs']:
            fr.loops.pop()
        phis = []
        vals = []
        src = fr.blk
        for ins in fn['blocks'][blk]:
            if ins['o'] != 'phi': break
            for b, o in ins['in']:
                if b == src:
                    vals.append(self.val(st, fr, o) if not (o[0] == 'u') else UNDEF); break
            else: raise Unsupported('phi edge')
            phis.append(ins['r'])
        L = fn['L'].get(blk)
        fr.prev = fr.blk
        if L is not None:
            back = fr.loops and fr.loops[-1].loop is L
            if back:
                lc = fr.loops[-1]
                if lc.kind in ('cut', 'dry'):
                    for p, v in zip(phis, vals): fr.regs[p] = v
                    self.backedge(st, lc, phis, vals, on_back)
                    raise PathEnd('backedge')
                lc.count += 1
                if lc.count > self.spec.get('max_unroll', 3000): raise Unsupported(f'unroll limit in {fn["dem"]} line {L["ln"]}')
                fr.loops.pop()
            for p, v in zip(phis, vals): fr.regs[p] = v
            fr.blk = blk; fr.ip = len(phis)
            self.enter_loop(st, L, phis, lc.count if back else 0)
            return
        for p, v in zip(phis, vals): fr.regs[p] = v
        fr.blk = blk; fr.ip = len(phis)

    # ------------------------------------------------------------- instructions
    def bits(self, tid):
        t = self.tname[tid]
        return int(t[1:]) if t and t[0] == 'i' and t[1:].isdigit() else None

    def asbool(self, v):
        if isinstance(v, bool) or (isz(v) and z3.is_bool(v)): return v
        if isinstance(v, Undef): return fresh_bool('undef')
        b = boolof(v) if isinstance(v, (int, z3.ExprRef)) else None
        if b is not None: return b
        if isinstance(v, int): return v % 2 == 1
        return icmp_eq(fmod(v, 2), 1)

    def step(self, st, fr, I):
        o = I['o']
        h = getattr(self, 'i_' + o, None)
        if h is None: raise Unsupported(f'instruction {o}')
        return h(st, fr, I)

    def ops(self, st, fr, I):
        return [self.val(st, fr, a) for a in I['a']]

    def i_alloca(self, st, fr, I):
        n = self.val(st, fr, I['a'][0])
        if n != 1: raise Unsupported('variable alloca')
        r = self.new_region(st, f'a{I["r"]}', kind='stack', size=I['sz'], ty=I['at'])
        fr.regs[I['r']] = Ptr(r)

    def i_load(self, st, fr, I):
        p = self.val(st, fr, I['a'][0])
        fr.regs[I['r']] = self.load_t(st, p, I['t'])

    def load_t(self, st, p, tid):
        t = self.types[tid]
        if isinstance(t, str):
            if t == 'i1': return self.asbool(self.load(st, p, 'i8'))
            if t == 'i128': t = 'i128'
            return self.load(st, p, t)
        L = self.leaves(tid)
        if 's' in t:
            return Agg([self.load_t(st, self.at(p, fo), ft) for fo, ft in t['s']])
        ps = []
        for lo, lt in L: ps.append((lo, lt, self.load(st, self.at(p, lo), lt)))
        return Packed(t['sz'], ps)

    def i_store(self, st, fr, I):
        v, p = self.ops(st, fr, I)
        self.store_t(st, p, I['at'], v)

    def store_t(self, st, p, tid, v):
        t = self.types[tid]
        if isinstance(t, str):
            if t == 'i1': return self.store(st, p, 'i8', b2i(self.asbool(v)))
            if t == 'i64' and isinstance(v, Ptr): t = 'p'
            return self.store(st, p, t, v)
        if isinstance(v, Agg):
            if 's' in t:
                for (fo, ft), x in zip(t['s'], v.vals): self.store_t(st, self.at(p, fo), ft, x)
            else:
                n, et = t.get('a') or t.get('vec')
                for i, x in enumerate(v.vals): self.store_t(st, self.at(p, i * t['es']), et, x)
            return
        if isinstance(v, Packed):
            self.clear_range(st, p, t['sz'])
            for po, pt, pv in v.pieces: self.store(st, self.at(p, po), pt, pv)
            return
        if isinstance(v, Undef): return
        raise Unsupported('store aggregate')

    def i_getelementptr(self, st, fr, I):
        p = self.val(st, fr, I['a'][0])
        if isinstance(p, Undef): fr.regs[I['r']] = p; return
        if not isinstance(p, Ptr): raise Unsupported(f'gep on {p}')
        for s in I['st']:
            if s[0] == 'c': p = p.plus(s[1])
            else:
                _, sc, o, n = s
                i = self.val(st, fr, o)
                if n > 16: self.add_dim(st, p, sc, n)
                if isinstance(i, int): p = p.plus(sc * i)
                else:
                    if isinstance(i, Packed): raise Unsupported('packed index')
                    if o[0] == 'v': i = self.signed(st, i, 64)
                    if isinstance(i, int): p = p.plus(sc * i); continue
                    k = st.known.get(i.get_id())
                    if k is not None: p = p.plus(sc * k); continue
                    p = self.plus_term(p, sc, i)
        fr.regs[I['r']] = p

    def plus_term(self, p, sc, i):
        """split x + c so that constant parts stay syntactic"""
        def go(p, sc, t):
            if isinstance(t, int): return p.plus(sc * t)
            if z3.is_int_value(t): return p.plus(sc * t.as_long())
            if z3.is_add(t):
                for j in range(t.num_args()): p = go(p, sc, keep(t.arg(j)))
                return p
            if z3.is_sub(t) and t.num_args() == 2:
                return go(go(p, sc, keep(t.arg(0))), -sc, keep(t.arg(1)))
            if z3.is_mul(t) and t.num_args() == 2:
                a, b = keep(t.arg(0)), keep(t.arg(1))
                if z3.is_int_value(a): return go(p, sc * a.as_long(), b)
                if z3.is_int_value(b): return go(p, sc * b.as_long(), a)
            return p.plus(0, ((sc, t),))
        return go(p, sc, i)

    def i_br(self, st, fr, I):
        if not I['a']: return ('br', True, I['to'][0], None)
        return ('br', self.asbool(self.val(st, fr, I['a'][0])), I['to'][0], I['to'][1])

    def i_switch(self, st, fr, I):
        v = self.val(st, fr, I['a'][0])
        if isinstance(v, bool): v = int(v)
        if isz(v) and z3.is_bool(v): v = b2i(v)
        n = 64
        if isz(v): v = self.signed(st, v, 32) if itv(v)[0] >= -2**31 and itv(v)[1] < 2**31 else v
        return ('sw', v, I['cs'], I['def'], n)

    def i_ret(self, st, fr, I):
        return ('ret', self.val(st, fr, I['a'][0]) if I['a'] else None)

    def i_unreachable(self, st, fr, I):
        raise PathEnd('unreachable')

    def i_freeze(self, st, fr, I):
        fr.regs[I['r']] = self.val(st, fr, I['a'][0])

    def i_fence(self, st, fr, I): pass

    def i_select(self, st, fr, I):
        c, a, b = self.ops(st, fr, I)
        c = self.asbool(c)
        if isinstance(c, bool): fr.regs[I['r']] = a if c else b; return
        f = st.fact(c)
        if f is not None: fr.regs[I['r']] = a if f else b; return
        try:
            if isinstance(a, (Packed, Agg)) or isinstance(b, (Packed, Agg)): raise Unsupported('')
            v = self.ite_val(c, a, b)
            if v is None: raise Unsupported('')
            fr.regs[I['r']] = v
        except Unsupported:
            raise ForkOn([('fact', c, True), ('fact', c, False)])

    def i_extractvalue(self, st, fr, I):
        v = self.val(st, fr, I['a'][0])
        for i in I['ix']:
            if isinstance(v, Undef): break
            if isinstance(v, Packed):
                t = self.types[I['at']]
                off = t['s'][i][0] if 's' in t else i * t['es']
                v = next((pv for po, pt, pv in v.pieces if po == off), UNDEF)
            else: v = v.vals[i]
        fr.regs[I['r']] = v

    def i_insertvalue(self, st, fr, I):
        a, v = self.ops(st, fr, I)
        def ins(a, ix, tid):
            t = self.types[tid]
            if isinstance(a, Undef): a = self.undef(tid)
            if isinstance(a, Undef): a = Agg([UNDEF] * (t.get('a') or t.get('vec'))[0])
            vals = list(a.vals)
            if len(ix) == 1: vals[ix[0]] = v
            else: vals[ix[0]] = ins(vals[ix[0]], ix[1:], t['s'][ix[0]][1] if 's' in t else t['a'][1])
            return Agg(vals)
        fr.regs[I['r']] = ins(a, I['ix'], I['t'])

    def i_insertelement(self, st, fr, I):
        a, v, i = self.ops(st, fr, I)
        t = self.types[I['t']]
        i = cint(i) if not isinstance(i, int) else i
        if isinstance(a, Undef): vals = [UNDEF] * t['vec'][0]
        else: vals = list(a.vals)
        vals[i] = v
        fr.regs[I['r']] = Agg(vals)
    def i_extractelement(self, st, fr, I):
        a, i = self.ops(st, fr, I)
        i = cint(i) if not isinstance(i, int) else i
        if isinstance(a, Packed):
            es = self.types[I['at']]['es'] if 'at' in I else 4
            fr.regs[I['r']] = next((pv for po, pt, pv in a.pieces if po == i * es), UNDEF)
        else: fr.regs[I['r']] = UNDEF if isinstance(a, Undef) else a.vals[i]
    # ---- casts
    def i_bitcast(self, st, fr, I): fr.regs[I['r']] = self.val(st, fr, I['a'][0])
    def i_ptrtoint(self, st, fr, I): fr.regs[I['r']] = self.val(st, fr, I['a'][0])
    def i_inttoptr(self, st, fr, I):
        v = self.val(st, fr, I['a'][0])
        if isinstance(v, int) and v == 0: v = NULL
        fr.regs[I['r']] = v
    def i_addrspacecast(self, st, fr, I): self.i_bitcast(st, fr, I)

    def i_trunc(self, st, fr, I):
        v = self.val(st, fr, I['a'][0]); n = self.bits(I['t'])
        if isinstance(v, Packed):
            for po, pt, pv in v.pieces:
                if po == 0 and SIZE[pt] * 8 == n: fr.regs[I['r']] = pv; return
            raise Unsupported('trunc packed')
        if isinstance(v, Undef): fr.regs[I['r']] = v; return
        if n == 1: fr.regs[I['r']] = self.asbool(v); return
        # keep any representative
        l, h = itv(v)
        if l >= -(1 << (n - 1)) and h < (1 << n): fr.regs[I['r']] = v; return
        s = self.signed(st, v, n)
        fr.regs[I['r']] = s

    def i_zext(self, st, fr, I):
        v = self.val(st, fr, I['a'][0]); n = self.bits(I['at'])
        if isinstance(v, Undef): fr.regs[I['r']] = v; return
        if n == 1: fr.regs[I['r']] = b2i(self.asbool(v)); return
        if isinstance(v, Packed): fr.regs[I['r']] = Packed(SIZE[self.tname[I['t']]], v.pieces); return
        if isinstance(v, Ptr): raise Unsupported('zext ptr')
        fr.regs[I['r']] = self.unsigned(st, v, n)

    def i_sext(self, st, fr, I):
        v = self.val(st, fr, I['a'][0]); n = self.bits(I['at'])
        if isinstance(v, Undef): fr.regs[I['r']] = v; return
        if n == 1: fr.regs[I['r']] = neg(b2i(self.asbool(v))); return
        fr.regs[I['r']] = self.signed(st, v, n)

    def real(self, v):
        if isinstance(v, Undef): return fresh_real('undef')
        if isinstance(v, Packed):
            if len(v.pieces) == 1: return v.pieces[0][2]
            raise Unsupported('packed real')
        return v

    def i_fpext(self, st, fr, I): fr.regs[I['r']] = self.real(self.val(st, fr, I['a'][0]))
    def i_fptrunc(self, st, fr, I): fr.regs[I['r']] = self.real(self.val(st, fr, I['a'][0]))
    def i_sitofp(self, st, fr, I):
        fr.regs[I['r']] = int2real(self.signed(st, self.val(st, fr, I['a'][0]), self.bits(I['at'])))
    def i_uitofp(self, st, fr, I):
        v = self.val(st, fr, I['a'][0])
        if self.bits(I['at']) == 1: v = b2i(v)
        fr.regs[I['r']] = int2real(self.unsigned(st, v, self.bits(I['at'])))
    def i_fptosi(self, st, fr, I):
        fr.regs[I['r']] = self.truncz(st, self.real(self.val(st, fr, I['a'][0])), self.tname[I['t']])
    def i_fptoui(self, st, fr, I): self.i_fptosi(st, fr, I)

    def floor(self, x):
        if isnum(x): return x.numerator // x.denominator if isinstance(x, Fraction) else x
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL: return keep(x.arg(0))
        return keep(z3.ToInt(x))

    def truncz(self, st, x, ty=None):
        if isnum(x): return int(x)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL: return keep(x.arg(0))
        if self.provable(st, x >= 0): return keep(z3.ToInt(x))
        return keep(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))

    def lround(self, st, x):
        """round half away from zero"""
        if isnum(x):
            x = Fraction(x)
            h = Fraction(1, 2)
            return (x + h).__floor__() if x >= 0 else -((-x + h).__floor__())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL: return keep(x.arg(0))
        h = z3.Q(1, 2)
        # define via fresh integer with linear constraints (solver friendly)
        key = ('lround', x.get_id())
        r = self.uf.get(key)
        if r is None:
            keep(x)
            r = self.uf[key] = keep(z3.Int(fresh_name('lround')))
        if st.quant:
            return keep(z3.If(x >= 0, z3.ToInt(x + h), -z3.ToInt(-x + h)))
        rr = z3.ToReal(r)
        st.add_fact(z3.And(z3.Implies(x >= 0, z3.And(rr - h <= x, x < rr + h)),
                           z3.Implies(x < 0, z3.And(rr - h < x, x <= rr + h))))
        return r

    # ---- integer arithmetic
    def ints(self, st, fr, I):
        a, b = self.ops(st, fr, I)
        return a, b

    def undef_int(self, v):
        if isinstance(v, Undef): return fresh_int('undef')
        return v

    def i_add(self, st, fr, I):
        a, b = self.ops(st, fr, I)
        if isinstance(a, Ptr) and isinstance(b, int): fr.regs[I['r']] = a.plus(b); return
        a = self.undef_int(a); b = self.undef_int(b)
        self.wrapped(st, fr, I, add(a, b))

    def wrapped(self, st, fr, I, v):
        n = self.bits(I['t'])
        if isz(v) and (I.get('fl', 0) & 1):
            # nsw: overflow would be undefined behaviour; mathematical result
            l, h = itv(v)
            lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
            if (l < lo or h > hi) and not st.quant:     # specifications: mathematical integers
                self.assumed_nooverflow += 1
                st.add_fact(z3.And(v >= lo, v <= hi))
            elif st.quant and z3.is_arith(v):
                # marked by the Python object, not the term: the same term may also occur as a machine value
                v = z3.ArithRef(v.as_ast(), v.ctx); self.__dict__.setdefault('mathterms', {})[id(v)] = keep(v)
        if isinstance(v, int):
            v = (v + (1 << (n - 1))) % (1 << n) - (1 << (n - 1)) if not (-(1 << (n - 1)) <= v < (1 << n)) else v
        fr.regs[I['r']] = v

    def i_sub(self, st, fr, I):
        a, b = self.ops(st, fr, I)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(b, int) and b == 0: fr.regs[I['r']] = a; return
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported('ptr sub')
            if a.r is not b.r: raise Unsupported('ptr sub across regions')
            g, e = self.lin_diff(a, b)
            d = mul(e, g) if g else 0
            if isz(d): self.__dict__.setdefault('ptrdiffs', {})[d.get_id()] = keep(d)   # objects are smaller than 2^63 bytes
            fr.regs[I['r']] = d; return
        a = self.undef_int(a); b = self.undef_int(b)
        if isz(a) and z3.is_bool(a) or isinstance(a, bool): fr.regs[I['r']] = bxor(a, b); return
        self.wrapped(st, fr, I, sub(a, b))

    def i_mul(self, st, fr, I):
        a, b = self.ops(st, fr, I)
        n = self.bits(I['t'])
        if n and not (I.get('fl', 0) & 1):
            a = self.signed(st, a, n) if isz(a) else a; b = self.signed(st, b, n) if isz(b) else b
        self.wrapped(st, fr, I, mul(a, b))

    def i_sdiv(self, st, fr, I):
        a, b = self.ops(st, fr, I); n = self.bits(I['t'])
        M = self.__dict__.get('mathterms', ()) if st.quant else ()
        if not (isz(a) and id(a) in M): a = self.signed(st, a, n)
        if not (isz(b) and id(b) in M): b = self.signed(st, b, n)
        r = fr.regs[I['r']] = self.tdiv(st, a, b)
        if isz(a) and isz(r) and a.get_id() in self.__dict__.get('ptrdiffs', ()): self.ptrdiffs[r.get_id()] = keep(r)

    def tdiv(self, st, a, b):
        if isinstance(a, int) and isinstance(b, int):
            q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
        if isinstance(b, int) and b > 0:
            ex = self.exact_div(a, b)
            if ex is not None: return ex
            if itv(a)[0] >= 0 or self.provable(st, zi(a) >= 0): return fdiv(a, b)
            return ite(zi(a) >= 0, fdiv(a, b), neg(fdiv(neg(a), b)))
        if isinstance(b, int) and b < 0: return neg(self.tdiv(st, a, -b))
        self.div_check(st, b)
        a = zi(a); b = zi(b)
        if self.spec.get('opaque_div'):
            # truncated quotient as an uninterpreted function of its factors, with the instance of:
            # 0 <= y <= b, b > 0 => x*y/b lies between 0 and x
            I = z3.IntSort()
            if z3.is_mul(a) and a.num_args() == 2:
                f = self.uf.setdefault('MULDIV', z3.Function('MULDIV', I, I, I, I))
                x, y = keep(a.arg(0)), keep(a.arg(1))
                q = keep(f(x, y, b))
                self.theory(st, keep(q == f(y, x, b)))
                for x, y in ((x, y), (y, x)):
                    self.theory(st, keep(z3.Implies(z3.And(b > 0, y >= 0, y <= b), z3.And(z3.Implies(x >= 0, z3.And(q >= 0, q <= x)), z3.Implies(x <= 0, z3.And(q <= 0, q >= x))))))
            else:
                f = self.uf.setdefault('TDIV', z3.Function('TDIV', I, I, I)); q = keep(f(a, b))
            return q
        if self.provable(st, z3.And(a >= 0, b > 0)):
            return set_itv(keep(a / b), 0, itv(a)[1])
        return keep(z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -(-a / b), (-a / -b))))

    def exact_div(self, a, b):
        """a syntactic multiple of b (pointer differences)"""
        if isz(a) and z3.is_mul(a) and a.num_args() == 2:
            x, y = keep(a.arg(0)), keep(a.arg(1))
            if z3.is_int_value(x): x, y = y, x
            if z3.is_int_value(y) and y.as_long() % b == 0: return mul(x, y.as_long() // b)
        return None

    def div_check(self, st, b):
        self.obligation(st, bnot(icmp_eq(b, 0)), 'division by zero', 'safety')

    def i_udiv(self, st, fr, I):
        a, b = self.ops(st, fr, I); n = self.bits(I['t'])
        a = self.unsigned(st, a, n); b = self.unsigned(st, b, n)
        if isinstance(b, int):
            ex = self.exact_div(a, b)
            fr.regs[I['r']] = ex if ex is not None else fdiv(a, b); return
        self.div_check(st, b)
        fr.regs[I['r']] = set_itv(keep(zi(a) / b), 0, itv(a)[1])

    def i_urem(self, st, fr, I):
        a, b = self.ops(st, fr, I); n = self.bits(I['t'])
        a = self.unsigned(st, a, n); b = self.unsigned(st, b, n)
        if isinstance(b, int): fr.regs[I['r']] = fmod(a, b); return
        self.div_check(st, b)
        fr.regs[I['r']] = set_itv(keep(zi(a) % b), 0, itv(b)[1])

    def i_srem(self, st, fr, I):
        a, b = self.ops(st, fr, I); n = self.bits(I['t'])
        a = self.signed(st, a, n); b = self.signed(st, b, n)
        if isinstance(a, int) and isinstance(b, int):
            fr.regs[I['r']] = a - b * self.tdiv(st, a, b); return
        if isinstance(b, int) and b > 0 and self.provable(st, zi(a) >= 0): fr.regs[I['r']] = fmod(a, b); return
        if self.provable(st, z3.And(zi(a) >= 0, zi(b) > 0)):
            fr.regs[I['r']] = keep(zi(a) % zi(b)); return
        q = self.tdiv(st, a, b)
        fr.regs[I['r']] = sub(a, mul(q, b))

    def shamt(self, st, b):
        if isinstance(b, int): return b
        k = st.known.get(b.get_id())
        if k is not None: return k
        vals = self.enum_values(st, b, 64)
        if vals is None: raise Unsupported('symbolic shift')
        raise ForkOn([('known', b, v) for v in vals])

    def i_shl(self, st, fr, I):
        a, b = self.ops(st, fr, I); n = self.bits(I['t'])
        if isz(b) and self.spec.get('pow2'):
            # 2^b as an uninterpreted function with its recursion at b
            f = self.uf.setdefault('POW2', z3.Function('POW2', z3.IntSort(), z3.IntSort()))
            l, h = itv(b); p, q = f(b), f(b - 1)
            l = int(max(l, 0)); h = int(min(h, n - 1))
            p = set_itv(p, 1 << l, 1 << h)
            self.theory(st, keep(z3.Implies(z3.And(b >= 0, b < n), z3.And(p >= 1 << l, p <= 1 << h, q >= 0, z3.Implies(b == 0, p == 1), z3.Implies(b >= 1, z3.And(p == 2 * q, q >= 1))))))
            v = mul(a, p)
        else:
            b = self.shamt(st, b)
            v = mul(a, 1 << b)
        if not (I.get('fl', 0) & 1) and isz(v):
            l, h = itv(v)
            if l < -(1 << (n - 1)) or h >= (1 << n): 
                tz = tzof(v)
                v = self.signed(st, v, n)
                if isz(v): TZ[v.get_id()] = max(TZ.get(v.get_id(), 0), min(tz, n))
        self.wrapped(st, fr, I, v)

    def i_lshr(self, st, fr, I):
        a, b = self.ops(st, fr, I); n = self.bits(I['t'])
        if isinstance(a, Packed):
            b = self.shamt(st, b)
            ps = [(po - b // 8, pt, pv) for po, pt, pv in a.pieces if po >= b // 8]
            fr.regs[I['r']] = Packed(a.size, ps); return
        fr.regs[I['r']] = fdiv(self.unsigned(st, a, n), 1 << self.shamt(st, b))

    def i_ashr(self, st, fr, I):
        a, b = self.ops(st, fr, I); n = self.bits(I['t'])
        b = self.shamt(st, b)
        a = self.signed(st, a, n)
        if isinstance(a, (int,)): fr.regs[I['r']] = a >> b; return
        ex = self.exact_div(a, 1 << b)
        fr.regs[I['r']] = ex if ex is not None else fdiv(a, 1 << b)

    def i_and(self, st, fr, I):
        a, b = self.ops(st, fr, I); n = self.bits(I['t'])
        if n == 1: fr.regs[I['r']] = band(self.asbool(a), self.asbool(b)); return
        if isinstance(a, Packed) and isinstance(b, int):
            m = b % (1 << n)
            for po, pt, pv in a.pieces:
                if po == 0 and m == (1 << (8 * SIZE[pt])) - 1: fr.regs[I['r']] = self.unsigned(st, pv, SIZE[pt] * 8); return
            raise Unsupported('and packed')
        if isinstance(a, int) and not isinstance(b, int): a, b = b, a
        if isinstance(a, int): fr.regs[I['r']] = a & b; return
        if not isinstance(b, int):
            for x, y in ((a, b), (b, a)):
                if boolof(x) is not None and boolof(y) is not None:
                    fr.regs[I['r']] = b2i(band(boolof(x), boolof(y))); return
            raise Unsupported('symbolic and')
        fr.regs[I['r']] = self.mask(st, a, b % (1 << n), n)

    def mask(self, st, a, m, n):
        if isinstance(a, Fn):      # pointer to a member function: bit 0 tells virtual ones apart
            if m == 1: return 0
            raise Unsupported('arithmetic on a function pointer')
        if boolof(a) is not None: return a if m & 1 else 0
        r = 0; pos = 0
        while m:
            tz = (m & -m).bit_length() - 1
            pos += tz; m >>= tz
            ln = (~m & (m + 1)).bit_length() - 1
            if pos + ln >= n:
                # top run: a - (a mod 2^pos), unsigned
                u = self.unsigned(st, a, n)
                part = mul(fdiv(u, 1 << pos), 1 << pos)
            else:
                part = mul(fmod(fdiv(a, 1 << pos), 1 << ln), 1 << pos)
            r = add(r, part)
            m >>= ln; pos += ln
        return r

    def i_or(self, st, fr, I):
        a, b = self.ops(st, fr, I); n = self.bits(I['t'])
        if n == 1: fr.regs[I['r']] = bor(self.asbool(a), self.asbool(b)); return
        if isinstance(a, Packed) or isinstance(b, Packed): fr.regs[I['r']] = self.packed_or(a, b, n); return
        if isinstance(a, int) and isinstance(b, int): fr.regs[I['r']] = a | b; return
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int) and y == 0: fr.regs[I['r']] = x; return
        if boolof(a) is not None and boolof(b) is not None:
            fr.regs[I['r']] = b2i(bor(boolof(a), boolof(b))); return
        for x, y in ((a, b), (b, a)):
            tz = tzof(x)
            if tz:
                l, h = itv(y)
                if l >= 0 and h < (1 << tz): fr.regs[I['r']] = add(x, y); return
                if isz(y) and self.provable(st, z3.And(y >= 0, y < (1 << min(tz, 64)))): fr.regs[I['r']] = add(x, y); return
        raise Unsupported('symbolic or')

    def packed_or(self, a, b, n):
        ps = []
        for v in (a, b):
            if isinstance(v, Packed): ps += v.pieces
            elif isinstance(v, int) and v == 0: pass
            elif isz(v) and itv(v)[0] >= 0 and itv(v)[1] < 2**32: ps.append((0, 'i32', v))
            elif isz(v) and tzof(v) >= 32: ps.append((4, 'i32', fdiv(v, 2**32)))
            else: raise Unsupported('packed or')
        ps.sort(key=lambda x: x[0])
        return Packed(n // 8, ps)

    def i_xor(self, st, fr, I):
        a, b = self.ops(st, fr, I); n = self.bits(I['t'])
        if n == 1: fr.regs[I['r']] = bxor(self.asbool(a), self.asbool(b)); return
        if isinstance(a, int) and isinstance(b, int): fr.regs[I['r']] = a ^ b; return
        if isinstance(b, int) and b % (1 << n) == (1 << n) - 1: fr.regs[I['r']] = sub(-1, self.signed(st, a, n)); return
        if boolof(a) is not None:
            if isinstance(b, int) and b in (0, 1): fr.regs[I['r']] = b2i(bxor(boolof(a), bool(b))); return
            if isz(b) and boolof(b) is not None: fr.regs[I['r']] = b2i(bxor(boolof(a), boolof(b))); return
        # uninterpreted but deterministic
        f = self.uf.setdefault(('xor', n), z3.Function(f'xor{n}', z3.IntSort(), z3.IntSort(), z3.IntSort()))
        fr.regs[I['r']] = set_itv(keep(f(zi(a), zi(b))), -(1 << (n - 1)), (1 << (n - 1)) - 1)

    def ptr_eq(self, st, a, b):
        if isinstance(a, Fn) or isinstance(b, Fn):
            return isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
        if isinstance(a, int): a = NULL if a == 0 else a
        if isinstance(b, int): b = NULL if b == 0 else b
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported(f'pointer comparison {a} {b}')
        if a.r is b.r:
            r = True
            if a.r.fam: r = icmp_eq(a.obj, b.obj)
            d = self.lin_diff(a, b)
            return band(r, icmp_eq(d[1], 0))
        for x, y in ((a, b), (b, a)):
            if x.r.id == 0:
                if y.r.fam: return icmp_eq(y.obj, 0)
                if any(isz(t[1]) and t[1].get_id() in MAYBE_NULL for t in y.ts): raise Unsupported('comparison of a maybe-null array pointer')
                return False
        return False

    def i_icmp(self, st, fr, I):
        a, b = self.ops(st, fr, I)
        p = I['p']; n = self.bits(I['at'])
        t = self.tname[I['at']]
        if t == 'p' or isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Undef) or isinstance(b, Undef): fr.regs[I['r']] = fresh_bool('undef'); return
            if p == 'eq': r = self.ptr_eq(st, a, b)
            elif p == 'ne': r = bnot(self.ptr_eq(st, a, b))
            else:
                if a.r is not b.r: raise Unsupported('ordered pointer comparison')
                g, e = self.lin_diff(a, b)
                r = {'ult': icmp_lt(e, 0), 'ule': icmp_le(e, 0), 'ugt': icmp_lt(0, e), 'uge': icmp_le(0, e),
                     'slt': icmp_lt(e, 0), 'sle': icmp_le(e, 0), 'sgt': icmp_lt(0, e), 'sge': icmp_le(0, e)}[p]
            fr.regs[I['r']] = r; return
        if isinstance(a, Undef) or isinstance(b, Undef): fr.regs[I['r']] = fresh_bool('undef'); return
        if isinstance(a, Packed) or isinstance(b, Packed):
            if isinstance(a, Packed) and isinstance(b, Packed) and p in ('eq', 'ne'):
                r = True
                for (po, pt, pv), (qo, qt, qv) in zip(a.pieces, b.pieces):
                    if (po, pt) != (qo, qt): raise Unsupported('packed cmp')
                    r = band(r, icmp_eq(pv, qv))
                fr.regs[I['r']] = r if p == 'eq' else bnot(r); return
            raise Unsupported('packed cmp')
        if n == 1:
            a = self.asbool(a); b = self.asbool(b)
            x = bxor(a, b)
            if p == 'ne': r = x
            elif p == 'eq': r = bnot(x)
            elif p in ('ult', 'sgt'): r = band(bnot(a), b)
            elif p in ('ugt', 'slt'): r = band(a, bnot(b))
            elif p in ('ule', 'sge'): r = bor(bnot(a), b)
            else: r = bor(a, bnot(b))
            fr.regs[I['r']] = r; return
        if p in ('eq', 'ne'):
            a, b = self.align(st, a, b, n)
            r = icmp_eq(a, b)
            fr.regs[I['r']] = r if p == 'eq' else bnot(r); return
        if p[0] == 's': a = self.signed(st, a, n); b = self.signed(st, b, n)
        else: a = self.unsigned(st, a, n); b = self.unsigned(st, b, n)
        q = p[1:]
        fr.regs[I['r']] = {'lt': lambda: icmp_lt(a, b), 'le': lambda: icmp_le(a, b),
                           'gt': lambda: icmp_lt(b, a), 'ge': lambda: icmp_le(b, a)}[q]()

    def align(self, st, a, b, n):
        """same representative class for (dis)equality"""
        (la, ha), (lb, hb) = itv(a), itv(b)
        lo, hi = min(la, lb), max(ha, hb)
        if hi - lo < (1 << n): return a, b
        return self.signed(st, a, n), self.signed(st, b, n)

    # ---- floats as reals
    def i_fadd(self, st, fr, I): a, b = map(self.real, self.ops(st, fr, I)); fr.regs[I['r']] = radd(a, b)
    def i_fsub(self, st, fr, I): a, b = map(self.real, self.ops(st, fr, I)); fr.regs[I['r']] = rsub(a, b)
    def i_fmul(self, st, fr, I): a, b = map(self.real, self.ops(st, fr, I)); fr.regs[I['r']] = rmul(a, b)
    def i_fneg(self, st, fr, I): fr.regs[I['r']] = rneg(self.real(self.val(st, fr, I['a'][0])))
    def i_fdiv(self, st, fr, I):
        a, b = map(self.real, self.ops(st, fr, I))
        if isnum(b) and b != 0:
            fr.regs[I['r']] = rmul(a, 1 / Fraction(b)); return
        if isnum(b): raise Unsupported('float division by constant zero')
        if self.spec.get('check_fdiv', True):
            self.obligation(st, bnot(req(b, Fraction(0))), 'floating division by zero', 'safety')
        if st.quant or self.spec.get('fdiv_native'): fr.regs[I['r']] = zr(a) / zr(b); return
        key = ('fdiv', zr(a).get_id(), b.get_id())
        q = self.uf.get(key)
        if q is None:
            keep(zr(a)); q = self.uf[key] = keep(z3.Real(fresh_name('quot')))
            self.uf[key + ('k',)] = zr(a)
        st.add_fact(q * b == zr(a))
        fr.regs[I['r']] = q

    def i_fcmp(self, st, fr, I):
        a, b = map(self.real, self.ops(st, fr, I))
        p = I['p']
        if p in ('ord', 'true'): r = True
        elif p in ('uno', 'false'): r = False
        else:
            q = p[1:]
            r = {'eq': lambda: req(a, b), 'ne': lambda: bnot(req(a, b)), 'lt': lambda: rlt(a, b), 'le': lambda: rle(a, b),
                 'gt': lambda: rlt(b, a), 'ge': lambda: rle(b, a)}[q]()
        fr.regs[I['r']] = r

    def i_atomicrmw(self, st, fr, I):
        p, v = self.ops(st, fr, I)
        old = self.load_t(st, p, I['t'])
        nv = {'add': lambda: add(old, v), 'sub': lambda: sub(old, v), 'xchg': lambda: v}[I['p']]()
        self.store_t(st, p, I['t'], nv)
        fr.regs[I['r']] = old

    # ------------------------------------------------------------- calls
    def cstr(self, st, p):
        if not isinstance(p, Ptr) or p.r.kind != 'global': return '?'
        g = self.globals.get(p.r.name)
        if not g or 'init' not in g: return '?'
        init = g['init']
        if init[0] == 'z': return ''
        if init[0] != 'agg': return '?'
        out = []
        for x in init[1][p.c:]:
            if x[0] == 'i' and x[1]: out.append(chr(x[1] & 255))
            else: break
        return ''.join(out)

    def i_call(self, st, fr, I):
        name = I.get('fn')
        if name is None:
            v = self.val(st, fr, I['cp']) if I['cp'][0] != 'asm' else None
            if v is None: raise Unsupported('inline asm')
            if not isinstance(v, Fn):
                # virtual call on an object of unknown type: by the contract given for its signature
                t = self.types[I['t']] if isinstance(I.get('t'), int) else I.get('t')
                stub = self.spec.get('virtual', {}).get(f"{self.tname[I['t']] if isinstance(I.get('t'), int) else t}({len(I['a'])})")
                if stub: return self.call(st, fr, I, stub)
            if not isinstance(v, Fn): raise Unsupported(f'indirect call via {v} in {fr.fn["dem"]}')
            name = v.name
        return self.call(st, fr, I, name)

    def call(self, st, fr, I, name):
        r = I.get('r')
        f = self.funcs.get(name)
        rep = self.replacement(st, name, f)
        if rep is not None: name = rep; f = self.funcs[name]
        h = self.builtin(name, f)
        if h is not None:
            a = [self.val(st, fr, x) if x[0] not in ('md',) else None for x in I['a']]
            v = h(self, st, a, I)
            if v is CALLED: return ('call',)
            if r is not None:
                fr.regs[r] = v if v is not None else UNDEF
            return None
        if f is None or f['decl']:
            raise Unsupported(f'call to external {f["dem"] if f else name}')
        a = [self.val(st, fr, x) for x in I['a']]
        for i in range(len(a)):
            bv = I.get(f'bv{i}')
            if bv is not None:
                t = self.types[bv]
                rg = self.new_region(st, 'byval', kind='stack', size=t['sz'] if isinstance(t, dict) else SIZE[t], ty=bv)
                self.memcpy(st, Ptr(rg), a[i], rg.size)
                a[i] = Ptr(rg)
        self.start(st, name, a, r)
        return ('call',)

    def replacement(self, st, name, f):
        reps = self.spec.get('replace')
        if not reps or name.startswith('vc_'): return None
        key = self.byname.get(name)
        if key is None:
            key = False
            dem = f['dem'] if f else name
            for pat, stub in reps.items():
                rec = False; p = pat
                if p.startswith('rec:'): rec = True; p = p[4:]
                if re.search(p, dem): key = (stub, rec); break
            self.byname[name] = key
        if not key: return None
        stub, rec = key
        if rec and not any(x.fn['name'] == name for x in st.frames): return None
        # inside the stub itself the real function may not be called
        self.stubs_used = getattr(self, 'stubs_used', set()); self.stubs_used.add((f['dem'] if f else name, stub))
        return stub

    def theory(self, st, c, closed=False):
        """a universally valid instance about a library function's value"""
        root = self.__dict__.get('pure_defs')
        if root is None or (self.__dict__.get('qdepth', 0) and not closed): st.add_fact(c)
        elif not isinstance(c, bool): root[1].append(keep(c))

    def eval_pure(self, st, fname, args):
        """evaluate a bool-returning pure function to a term (all paths merged)."""
        s2 = st.copy(); st.token = object()
        s2.quant += 1
        if s2.quant == 1: s2.qmark = self.nreg
        mark = len(s2.pc); base = len(s2.frames)
        out = []
        self.start(s2, fname, args)
        def end(s, v):
            out.append((list(s.pc[mark:]), self.asbool(v)))
        outer = self.__dict__.get('pure_defs')
        if outer is None: self.pure_defs = (mark, [])
        try: self.explore(s2, end, base=base)
        finally:
            if outer is None:
                defs = self.pure_defs[1]; self.pure_defs = None
        if outer is None:
            for d in defs: st.add_fact(d)
        return merge_tree([(list(d), v) for d, v in out], 0)

    def builtin(self, name, f):
        h = BUILTINS.get(name)
        if h is not None: return h
        if name.startswith('llvm.'):
            base = name.split('.')
            for k in (3, 2):
                h = LLVM.get('.'.join(base[1:k]))
                if h is not None: return h
            return None
        return None

CALLED = object()
BUILTINS = {}; LLVM = {}
def bi(*names):
    def d(fn):
        for n in names: BUILTINS[n] = fn
        return fn
    return d
def lv(*names):
    def d(fn):
        for n in names: LLVM[n] = fn
        return fn
    return d

@lv('lifetime', 'dbg', 'experimental', 'assume', 'invariant', 'prefetch', 'stacksave', 'stackrestore', 'donothing', 'trap2')
def _nop(E, st, a, I): return None
@lv('memcpy', 'memmove')
def _memcpy(E, st, a, I):
    n = a[2]
    if not isinstance(n, int):
        vals = E.enum_values(st, n, 64)
        if vals is None: raise Unsupported('memcpy of symbolic size')
        raise ForkOn([('known', n, v) for v in vals])
    E.memcpy(st, a[0], a[1], n)
@lv('memset')
def _memset(E, st, a, I):
    if not isinstance(a[2], int): raise Unsupported('memset symbolic size')
    E.memset(st, a[0], a[1], a[2])
@lv('trap', 'ubsantrap')
def _trap(E, st, a, I): E.bad_path(st, 'trap')
@lv('expect')
def _expect(E, st, a, I): return a[0]
@lv('is')  # llvm.is.constant / is.fpclass
def _isconst(E, st, a, I): return False
@lv('fabs')
@bi('fabs', 'fabsf')
def _fabs(E, st, a, I):
    x = E.real(a[0])
    if isnum(x): return abs(x)
    return rite(rle(Fraction(0), x), x, rneg(x))
@lv('abs')
def _abs(E, st, a, I):
    x = E.signed(st, a[0], E.bits(I['t']))
    if isinstance(x, int): return abs(x)
    if itv(x)[0] >= 0: return x
    return set_itv(ite(zi(x) >= 0, x, neg(x)), 0, max(abs(itv(x)[0]), abs(itv(x)[1])))
@bi('abs', 'labs', 'llabs')
def _abs2(E, st, a, I): return _abs(E, st, a, I)
def _mm(sg, lt):
    def f(E, st, a, I):
        n = E.bits(I['t'])
        g = E.signed if sg else E.unsigned
        x, y = g(st, a[0], n), g(st, a[1], n)
        c = icmp_lt(x, y) if lt else icmp_lt(y, x)
        r = ite(c, x, y)
        (lx, hx), (ly, hy) = itv(x), itv(y)
        if isz(r): set_itv(r, *( (min(lx, ly), min(hx, hy)) if lt else (max(lx, ly), max(hx, hy)) ))
        return r
    return f
LLVM['smax'] = _mm(True, False); LLVM['smin'] = _mm(True, True); LLVM['umax'] = _mm(False, False); LLVM['umin'] = _mm(False, True)
@lv('minnum')
@bi('fmin', 'fminf')
def _fmin(E, st, a, I): return rite(rlt(E.real(a[1]), E.real(a[0])), E.real(a[1]), E.real(a[0]))
@lv('maxnum')
@bi('fmax', 'fmaxf')
def _fmax(E, st, a, I): return rite(rlt(E.real(a[0]), E.real(a[1])), E.real(a[1]), E.real(a[0]))
@lv('fmuladd', 'fma')
def _fmuladd(E, st, a, I): return radd(rmul(E.real(a[0]), E.real(a[1])), E.real(a[2]))
@lv('floor')
@bi('floor', 'floorf')
def _floor(E, st, a, I): return int2real(E.floor(E.real(a[0])))
@lv('ceil')
@bi('ceil', 'ceilf')
def _ceil(E, st, a, I):
    x = E.real(a[0])
    return int2real(neg(E.floor(rneg(x))))
@lv('trunc')
@bi('trunc', 'truncf')
def _truncf(E, st, a, I): return int2real(E.truncz(st, E.real(a[0])))
@lv('round')
@bi('round', 'roundf')
def _round(E, st, a, I): return int2real(E.lround(st, E.real(a[0])))
@lv('lround', 'llround')
@bi('lround', 'lroundf', 'llround', 'llroundf')
def _lround(E, st, a, I): return E.lround(st, E.real(a[0]))
def _ufreal(E, nm, *args):
    f = E.uf.setdefault(('uf', nm, len(args)), z3.Function(nm, *([z3.RealSort()] * (len(args) + 1))))
    return keep(f(*[keep(z3.simplify(zr(x), som=True)) for x in args]))
def PI(st):
    p = keep(z3.Real('REAL_PI'))
    st.add_fact(keep(z3.And(p > z3.RealVal('3.14159265358979323846'), p < z3.RealVal('3.14159265358979323847'))))
    return p
@bi('vcx_hint_trig')
def _hint_trig(E, st, a, I):
    """addition theorems for sin/cos at x+y, and the symmetry at -x"""
    x, y = map(E.real, a)
    def sc(t):
        if isnum(t) and t == 0: return z3.RealVal(0), z3.RealVal(1)
        s = _sin(E, st, [t], I); return zr(s), zr(_ufreal(E, 'cos', t))
    (s1, c1), (s2, c2), (s3, c3), (s4, c4) = sc(x), sc(y), sc(radd(x, y)), sc(rneg(x))
    E.theory(st, z3.And(s3 == s1 * c2 + c1 * s2, c3 == c1 * c2 - s1 * s2))
    if not (isnum(x) and x == 0): E.theory(st, z3.And(s4 == -s1, c4 == c1))
@bi('vcx_hint_angle')
def _hint_angle(E, st, a, I):
    """an angle in (-pi, pi] is determined by its sine and cosine"""
    x, y = map(E.real, a); P = PI(st)
    s1, c1 = zr(_sin(E, st, [x], I)), zr(_cos(E, st, [x], I)); s2, c2 = zr(_sin(E, st, [y], I)), zr(_cos(E, st, [y], I))
    E.theory(st, z3.Implies(z3.And(zr(x) > -P, zr(x) <= P, zr(y) > -P, zr(y) <= P, s1 == s2, c1 == c2), zr(x) == zr(y)))
@lv('sqrt')
@bi('sqrt', 'sqrtf')
def _sqrt(E, st, a, I):
    x = E.real(a[0])
    if isnum(x):
        import math
        x = Fraction(x)
        n, d = math.isqrt(x.numerator) if x >= 0 else -1, math.isqrt(x.denominator)
        if x >= 0 and n * n == x.numerator and d * d == x.denominator: return Fraction(n, d)
    r = _ufreal(E, 'sqrt', x)
    if not isnum(x) and E.nonneg(st, zr(x)): E.theory(st, r >= 0); E.theory(st, r * r == zr(x)); return r
    E.theory(st, z3.And(z3.Implies(zr(x) >= 0, z3.And(r >= 0, r * r == zr(x)))))
    return r
@lv('sin')
@bi('sin', 'sinf')
def _sin(E, st, a, I):
    x = E.real(a[0])
    if isnum(x) and x == 0: return Fraction(0)
    s, c = _ufreal(E, 'sin', x), _ufreal(E, 'cos', x)
    E.theory(st, s * s + c * c == 1); E.theory(st, z3.And(s >= -1, s <= 1, c >= -1, c <= 1))
    return s
@lv('cos')
@bi('cos', 'cosf')
def _cos(E, st, a, I):
    x = E.real(a[0])
    if isnum(x) and x == 0: return Fraction(1)
    _sin(E, st, a, I)
    return _ufreal(E, 'cos', x)
for _n in ('exp', 'log', 'tan', 'atan', 'asin', 'acos', 'log2', 'log10', 'cbrt'):
    def _mk(nm):
        def f(E, st, a, I): return _ufreal(E, nm, E.real(a[0]))
        return f
    LLVM[_n] = BUILTINS[_n] = BUILTINS[_n + 'f'] = _mk(_n)
for _n in ('pow', 'atan2', 'hypot', 'fmod'):
    def _mk2(nm):
        def f(E, st, a, I):
            r = _ufreal(E, nm, E.real(a[0]), E.real(a[1]))
            if nm == 'atan2':
                y, x = zr(a[0]), zr(a[1]); P = PI(st)
                h = _sqrt(E, st, [radd(rmul(a[0], a[0]), rmul(a[1], a[1]))], I)
                s = _sin(E, st, [r], I); c = _ufreal(E, 'cos', r)
                E.theory(st, z3.And(zr(h) * zr(c) == x, zr(h) * zr(s) == y))
                E.theory(st, z3.And(r > -P, r <= P, z3.Implies(y >= 0, r >= 0), z3.Implies(z3.And(x >= 0, z3.Or(x != 0, y != 0)), z3.And(2 * r <= P, 2 * r >= -P))))
            if nm == 'hypot': E.theory(st, z3.And(r >= 0, r * r == zr(a[0]) * zr(a[0]) + zr(a[1]) * zr(a[1])))
            return r
        return f
    LLVM[_n] = BUILTINS[_n] = BUILTINS[_n + 'f'] = _mk2(_n)
@bi('_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', 'malloc')
def _new(E, st, a, I):
    n = a[0]
    r = E.new_region(st, f'new{E.nreg}', kind='heap', size=n if isinstance(n, int) else None)
    return Ptr(r)
@bi('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def _newal(E, st, a, I): return _new(E, st, a, I)
@bi('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '__cxa_guard_release', '__cxa_guard_abort')
def _del(E, st, a, I): return None
@bi('__cxa_guard_acquire')
def _guard(E, st, a, I):
    v = E.load(st, a[0], 'i8')
    if v == 0:
        E.store(st, a[0], 'i8', 1); return 1
    return 0
@bi('__cxa_atexit')
def _atexit(E, st, a, I): return 0
@bi('__cxa_pure_virtual', 'abort', '_ZSt9terminatev')
def _abort(E, st, a, I): E.bad_path(st, 'abort called')

# ---- specification intrinsics
@bi('vcx_any_int')
def _anyint(E, st, a, I):
    nm = E.cstr(st, a[0])
    v = keep(z3.Int(fresh_name(nm)))
    lo, hi = a[1], a[2]
    set_itv(v, lo if isinstance(lo, int) else -INF, hi if isinstance(hi, int) else INF)
    st.add_fact(z3.And(v >= zi(lo), v <= zi(hi)))
    st.anys.append((nm, 'i', v))
    return v
@bi('vcx_any_real')
def _anyreal(E, st, a, I):
    nm = E.cstr(st, a[0]); v = keep(z3.Real(fresh_name(nm)))
    st.anys.append((nm, 'r', v)); return v
@bi('vcx_any_bool')
def _anybool(E, st, a, I):
    nm = E.cstr(st, a[0]); v = keep(z3.Bool(fresh_name(nm)))
    st.anys.append((nm, 'b', v)); return v
@bi('vcx_assume')
def _assume(E, st, a, I):
    c = E.asbool(a[0])
    if isinstance(c, bool):
        if not c: raise PathEnd('assume false')
        return
    if st.quant == 0 and not has_quant(c) and not E.feasible(st, c): raise PathEnd('assume infeasible')
    if z3.is_and(c):
        for x in c.children(): st.add_fact(x)
    else: st.add_fact(c)
@bi('vcx_assert')
def _assert(E, st, a, I):
    if st.quant: return
    E.obligation(st, E.asbool(a[0]), E.cstr(st, a[1]), 'assert')
@bi('vcx_check')
def _check(E, st, a, I):
    c = E.asbool(a[0])
    if st.quant: return
    if E.spec.get('check_mode', 'assert') == 'assume':
        E.trusted.add('CHECK assumed: ' + E.cstr(st, a[1]))
        return _assume(E, st, [c], I)
    E.obligation(st, c, 'CHECK ' + E.cstr(st, a[1]), 'check')
@bi('vcx_unsupported')
def _unsup(E, st, a, I): raise Unsupported(E.cstr(st, a[0]))
@bi('vcx_alloc')
def _alloc(E, st, a, I):
    r = E.new_region(st, E.cstr(st, a[1]) + f'_{E.nreg}', stride=a[0], kind='heap')
    return Ptr(r)
@bi('vcx_array_of')
def _array_of(E, st, a, I):
    """the (so far unaccessed) objects p may point to are arrays of elements of the given size"""
    r = a[0].r
    if r.stride == a[1]: return
    if r.stride or E.rs(st, r).comps or E.rs(st, r).dims: raise Unsupported('vcx_array_of after access')
    r.stride = a[1]
@bi('vcx_newobj')
def _newobj(E, st, a, I):
    nm = E.cstr(st, a[1])
    key = (nm, a[0])
    r = E.fams.get(key)
    if r is None:
        r = E.fams[key] = E.new_region(st, nm, fam=True, size=a[0], kind='heap')
    n = st.famnext.get(r.id, 1)
    st.famnext[r.id] = add(n, 1)
    if st.wlog is not None: st.wlog.add(('fam', r.id))
    return Ptr(r, n)
@bi('vcx_copy_all')
def _copyall(E, st, a, I):
    d, s = a
    if d.r.stride != s.r.stride or d.c or d.ts: raise Unsupported('copy_all')
    # make sure lazily known parts are shared: copy current comps, link laziness
    ms = E.rs(st, s.r)
    md = E.rsw(st, d.r)
    if s.c or s.ts: raise Unsupported('copy_all offset')
    if s.r.fam or d.r.fam: raise Unsupported('copy_all family')
    if d.r.id in E.lazylink:      # no laziness to link: every part in use must be known
        for o in sorted(set(md.comps) - set(ms.comps)): E.load(st, E.at(s, o), md.comps[o][0])
        ms = E.rs(st, s.r); known = dict(ms.comps)
        for o in md.comps:
            if o not in known: known[o] = (md.comps[o][0], E.lazy(st, s.r, o, md.comps[o][0], md.dims or ms.dims or 1))
        if any(known[o][0] != md.comps[o][0] for o in md.comps): raise Unsupported('copy_all of another layout')
        if st.wlog is not None: st.wlog.add((d.r.id, None))
        md.comps = known; return
    else:
        seen = [k for k in E.lazymemo if k[0] == d.r.id]
        if seen:                  # already read: copy every part, which have to be known completely
            lay = {k[1]: k[2] for k in seen}
            for o, (t, _) in list(md.comps.items()) + list(ms.comps.items()): lay[o] = t
            at = 0
            for o in sorted(lay):
                if o != at: break
                at += SIZE[lay[o]]
            if at != d.r.stride or md.dims or ms.dims: raise Unsupported('copy_all over an array already read')
            if st.wlog is not None: st.wlog.add((d.r.id, None))
            md.comps = {o: ms.comps.get(o) or (t, E.lazy(st, s.r, o, t, 1)) for o, t in lay.items()}
            return
        E.lazylink[d.r.id] = s.r.id
    if st.wlog is not None: st.wlog.add((d.r.id, None))
    d.r.zero = s.r.zero
    md.comps = dict(ms.comps); md.dims = ms.dims
@bi('vcx_fill_all')
def _fillall(E, st, a, I):
    d, e, n = a
    off, idx = E.norm(st, e)
    m = E.rs(st, e.r)
    L = E.leaf_layout(e.r, off, n) if not idx else None
    todo = {o: t for o, (t, _) in m.comps.items() if off <= o < off + n}
    if L:
        for o, t in L:
            if o not in todo: todo[o] = t
    vals = {o: (t, E.load(st, E.at(e, o - off), t)) for o, t in todo.items()}
    md = E.rsw(st, d.r); md.comps = {}
    if not vals: raise Unsupported('fill with unknown layout')
    for o, (t, v) in vals.items():
        if t in CANON: v = E.canon(st, v, t)
        if t == 'p':
            if v.r.id != 0: raise Unsupported('fill with pointers')
            md.comps[o - off] = (t, Arr(E.karr(0, 'i64', 1), (), None))
        else: md.comps[o - off] = (t, Arr(E.karr(v, t, 1)))
    if st.wlog is not None: st.wlog.add((d.r.id, None))
@bi('vcx_havoc')
def _havoc(E, st, a, I):
    p, n = a
    off, idx = E.norm(st, p)
    m = E.rsw(st, p.r)
    for o in list(m.comps):
        if off <= o < off + n:
            t, v = m.comps[o]
            E.store(st, E.at(p, o - off), t, E.fresh_val(st, t, 'havoc'))
@bi('vcx_pure')
def _pure(E, st, a, I):
    f, c = a
    if not isinstance(f, Fn): raise Unsupported('vcx_pure of unknown function')
    return E.eval_pure(st, f.name, [c])
@bi('vcx_forall', 'vcx_exists')
def _forall(E, st, a, I):
    ex = I.get('fn') == 'vcx_exists'
    lo, hi, f, c = a
    v = keep(z3.Int(fresh_name('q')))
    set_itv(v, itv(lo)[0], itv(hi)[1] - 1 if itv(hi)[1] != INF else INF)
    s2 = st.copy(); st.token = object()
    s2.add_fact(z3.And(v >= zi(lo), v < zi(hi)))
    E.qdepth = E.__dict__.get('qdepth', 0) + 1
    try: body = E.eval_pure(s2, f.name, [c, v])
    finally: E.qdepth -= 1
    rng = z3.And(v >= zi(lo), v < zi(hi))
    if lo == -2**63 and hi == 2**63 - 1: rng = z3.BoolVal(True)     # all integers
    if ex:
        if body is False: return False
        return keep(z3.Exists([v], z3.And(rng, zb(body))))
    if body is True: return True
    return keep(z3.ForAll([v], z3.Implies(rng, zb(body))))
@bi('vcx_choose')
def _choose(E, st, a, I):
    """some x with f(x); the caller must have shown that one exists."""
    f, c = a
    v = keep(z3.Int(fresh_name('ch')))
    s2 = st.copy(); st.token = object()
    body = E.eval_pure(s2, f.name, [c, v])
    E.obligation(st, keep(z3.Exists([v], zb(body))), 'choose: witness exists', 'assert')
    st.add_fact(zb(body))
    return v
def _ufrange(E, st, nm, t):
    """integer specification functions are int64-valued; 'name:lo:hi' declares a smaller range"""
    p = nm.split(':')
    if len(p) != 3: return set_itv(t, -2**63, 2**63 - 1)
    lo, hi = int(p[1]), int(p[2])
    if not st.quant: st.add_fact(keep(z3.And(t >= lo, t <= hi)))
    elif not E.__dict__.get('qdepth', 0): E.theory(st, keep(z3.And(t >= lo, t <= hi)))
    return set_itv(t, lo, hi)
def _mkuf(nin, real):
    def h(E, st, a, I):
        nm = 'spec_' + E.cstr(st, a[0])
        f = E.uf.setdefault(('spec', nm), z3.Function(nm, *([z3.IntSort()] * nin + [z3.RealSort() if real else z3.IntSort()])))
        t = keep(f(*[zi(x) for x in a[1:]]))
        return t if real else _ufrange(E, st, nm, t)
    return h
def _mkufs(sig, real):
    def h(E, st, a, I):
        nm = 'spec_' + E.cstr(st, a[0])
        f = E.uf.setdefault(('spec', nm), z3.Function(nm, *([z3.IntSort() if c == 'i' else z3.RealSort() for c in sig] + [z3.RealSort() if real else z3.IntSort()])))
        t = keep(f(*[zi(x) if c == 'i' else zr(E.real(x)) for c, x in zip(sig, a[1:])]))
        return t if real else _ufrange(E, st, nm, t)
    return h
BUILTINS['vcx_uf3'] = _mkufs('iii', False)
BUILTINS['vcx_ufi_r1'] = _mkufs('r', False)
BUILTINS['vcx_ufi_r2'] = _mkufs('rr', False)
BUILTINS['vcx_ufi_r3'] = _mkufs('rrr', False)
BUILTINS['vcx_ufr_r1'] = _mkufs('r', True)
BUILTINS['vcx_ufr_r2'] = _mkufs('rr', True)
BUILTINS['vcx_ufr_r3'] = _mkufs('rrr', True)
for _k, _nm in ((1, 'vcx_uf1'), (2, 'vcx_uf2')): BUILTINS[_nm] = _mkuf(_k, False)
for _k, _nm in ((1, 'vcx_ufr1'), (2, 'vcx_ufr2'), (3, 'vcx_ufr3')): BUILTINS[_nm] = _mkuf(_k, True)
@bi('vcx_hint_flat')
def _hint_flat(E, st, a, I):
    """instances of two integer lemmas (proved in lemmas/flat.lean) about flat
    indices x + y*s, 0 <= x < s: injectivity against every other registered
    index with the same stride, and the range bound for 0 <= y < n."""
    if st.dry: return
    x, y, s, n = [zi(v) for v in a]
    H = E.__dict__.setdefault('flat', [])
    key = (x.get_id(), y.get_id(), s.get_id(), n.get_id())
    if any(h[0] == key for h in H): return
    for v in (x, y, s, n): keep(v)
    E.hints.append(z3.Implies(z3.And(x >= 0, x < s, y >= 0, y < n), z3.And(x + y * s >= 0, x + y * s < n * s)))
    for k2, x2, y2, s2 in H:
        E.hints.append(z3.Implies(z3.And(x >= 0, x < s, x2 >= 0, x2 < s2, s == s2, x + y * s == x2 + y2 * s2), z3.And(x == x2, y == y2)))
    H.append((key, x, y, s))
@bi('vcx_hint_mul')
def _hint_mul(E, st, a, I):
    """sign rules of the product a*b (theory fact the solvers do not look for)"""
    if st.dry: return
    x, y = [zi(v) for v in a]
    key = (x.get_id(), y.get_id()); H = E.__dict__.setdefault('mulh', {})
    if key in H: return
    H[key] = (keep(x), keep(y))
    p = x * y
    E.hints.append(z3.And(z3.Implies(z3.And(x > 0, y > 0), z3.And(p > 0, p >= x, p >= y)), z3.Implies(z3.And(x < 0, y < 0), p > 0), z3.Implies(z3.And(x > 0, y < 0), z3.And(p < 0, p <= y, p <= -x)),
                          z3.Implies(z3.And(x < 0, y > 0), z3.And(p < 0, p <= x, p <= -y)), z3.Implies(z3.Or(x == 0, y == 0), p == 0)))
@bi('vcx_define')
def _define(E, st, a, I):
    """an instance of the definition of a specification function (recursion on
    an integer argument), a conservative extension. The instance was computed on
    this path, so it is a fact of this path only; inside a pure specification it
    is handed, guarded by the specification's own path, to the calling state."""
    if st.dry: return
    c = a[0]
    if isinstance(c, (bool, int)):
        if not c: raise Unsupported('false definition')
        return
    c = c if z3.is_bool(c) else zi(c) != 0
    root = E.__dict__.get('pure_defs')
    if root is None: st.add_fact(c); return
    mark, defs = root
    guard = st.pc[mark:]
    defs.append(keep(z3.Implies(z3.And(*guard), c) if guard else c))
@bi('vcx_cover')
def _cover(E, st, a, I):
    if st.dry or st.quant: return
    E.covered.setdefault(E.cstr(st, a[0]), []).append(list(st.pc))
@bi('vcx_iter')
def _iter(E, st, a, I):
    return E.curk[-1][0]
@bi('vcx_outer_iter')
def _outer_iter(E, st, a, I):
    # iterations so far of the loop around the annotated one
    _, fi, L = E.curk[-1]
    for fr in reversed(st.frames[:fi + 1]):
        for lc in reversed(fr.loops):
            if lc.loop is L: continue
            return lc.k if lc.kind in ('cut', 'dry') else lc.count
    raise AnnotationMismatch('no enclosing loop')
@bi('vcx_local')
def _local(E, st, a, I):
    return E.find_local(st, E.cstr(st, a[0]), E.cstr(st, a[1]))
@bi('vcx_has_local')
def _haslocal(E, st, a, I):
    try: E.find_local(st, E.cstr(st, a[0]), E.cstr(st, a[1])); return True
    except AnnotationMismatch: return False
class AnnotationMismatch(Unsupported): pass
