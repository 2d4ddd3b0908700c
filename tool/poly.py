"""Polynomial back end: equalities over the reals by ideal membership.

A goal that is a conjunction of equations p == q is proved if p - q reduces to
zero modulo the polynomial equations among the hypotheses.  Only multiples of
hypotheses are subtracted, so a zero remainder is a proof; a nonzero one says
nothing (the rule set need not be a Groebner basis) and the SMT solvers decide.
"""
from fractions import Fraction
import time
import z3

class NotPoly(Exception): pass
LIMIT = 60000

class Atoms:
    def __init__(self): self.ids = {}; self.terms = []
    def of(self, e):
        i = e.get_id()
        if i not in self.ids: self.ids[i] = len(self.terms); self.terms.append(e)
        return self.ids[i]

def const(c): return {(): c} if c else {}
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def mmul(m, n):
    d = dict(m)
    for v, e in n: d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))
def pmul(a, b):
    if len(a) * len(b) > LIMIT: raise NotPoly()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n); v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    return r

class Conv:
    def __init__(self): self.A = Atoms(); self.cache = {}
    def __call__(self, e):
        i = e.get_id()
        r = self.cache.get(i)
        if r is None: r = self.cache[i] = self.conv(e)
        return r
    def conv(self, e):
        if z3.is_rational_value(e): return const(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        if z3.is_int_value(e): return const(Fraction(e.as_long()))
        k = e.decl().kind() if z3.is_app(e) else None
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in e.children(): r = padd(r, self(c))
            return r
        if k == z3.Z3_OP_SUB:
            cs = e.children(); r = self(cs[0])
            for c in cs[1:]: r = padd(r, self(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS: return padd({}, self(e.arg(0)), -1)
        if k == z3.Z3_OP_MUL:
            r = const(Fraction(1))
            for c in e.children(): r = pmul(r, self(c))
            return r
        if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)):
            n = e.arg(1).as_fraction()
            if n.denominator == 1 and 0 <= n <= 8:
                r = const(Fraction(1)); b = self(e.arg(0))
                for _ in range(int(n)): r = pmul(r, b)
                return r
        if k == z3.Z3_OP_DIV:
            d = self(e.arg(1))
            if len(d) == 1 and () in d: return {m: c / d[()] for m, c in self(e.arg(0)).items()}
        return {((self.A.of(e), 1),): Fraction(1)}

def deg(m): return sum(e for _, e in m)
def order(m): return (deg(m), tuple((-v, e) for v, e in m))
def lead(p): return max(p, key=lambda m: (deg(m), [(-v, e) for v, e in m]))

def divides(m, n):
    d = dict(n)
    return all(d.get(v, 0) >= e for v, e in m)
def mdiv(n, m):
    d = dict(n)
    for v, e in m:
        d[v] -= e
        if not d[v]: del d[v]
    return tuple(sorted(d.items()))

def reduce(p, rules, deadline):
    """rules: (leading monomial, replacement polynomial)"""
    p = dict(p); out = {}
    n = 0
    while p:
        n += 1
        if n % 64 == 0 and time.time() > deadline: raise NotPoly()
        m = lead(p); c = p[m]
        for lm, rep in rules:
            if divides(lm, m):
                q = mdiv(m, lm)
                del p[m]
                for k, d in rep.items():
                    kk = mmul(k, q); v = p.get(kk, 0) + c * d
                    if v: p[kk] = v
                    else: p.pop(kk, None)
                if len(p) > LIMIT: raise NotPoly()
                break
        else:
            v = out.get(m, 0) + c; del p[m]
            if v: out[m] = v
            else: out.pop(m, None)
    return out

def equations(e, out):
    if z3.is_and(e):
        for c in e.children(): equations(c, out)
    elif z3.is_eq(e) and z3.is_real(e.arg(0)): out.append(e)
    elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_IMPLIES: pass

def prove(pc, goal, budget=10):
    deadline = time.time() + budget
    gs = []
    def flat(g):
        if z3.is_and(g): return all(flat(c) for c in g.children())
        if z3.is_eq(g) and z3.is_real(g.arg(0)): gs.append(g); return True
        return False
    if not flat(goal) or not gs: return False
    try:
        C = Conv()
        hyps = []
        es = []
        for c in pc: equations(c, es)
        # facts guarded by a hypothesis that is present verbatim
        have = {c.get_id() for c in pc}
        for c in pc:
            if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_IMPLIES and c.arg(0).get_id() in have: equations(c.arg(1), es)
        for e in es:
            try: p = padd(C(e.arg(0)), C(e.arg(1)), -1)
            except NotPoly: continue
            if p and len(p) < 2000: hyps.append(p)
        goals = [padd(C(g.arg(0)), C(g.arg(1)), -1) for g in gs]
        subst = []
        # linear definitions first: atom = polynomial not containing it
        work = hyps; hyps = []
        progress = True
        while progress and time.time() < deadline:
            progress = False
            for i, p in enumerate(work):
                if not p: continue
                cand = None
                for m, c in p.items():
                    if len(m) == 1 and m[0][1] == 1:
                        v = m[0][0]
                        if not any(v == w for n in p if n != m for w, _ in n):
                            if cand is None or v > cand[0]: cand = (v, m, c)
                if cand is None: continue
                v, m, c = cand
                rep = {n: -d / c for n, d in p.items() if n != m}
                rule = (m, rep)
                work[i] = {}
                work = [reduce(q, [rule], deadline) if any(v == w for n in q for w, _ in n) else q for q in work]
                subst = [(lm, reduce(r, [rule], deadline)) for lm, r in subst]
                goals = [reduce(q, [rule], deadline) for q in goals]
                subst.append(rule); progress = True
                break
        if not any(goals): return True
        rules = []
        for p in sorted((q for q in work if q), key=lambda q: (max(map(deg, q)), len(q))):
            p = reduce(p, rules, deadline)
            if not p: continue
            lm = lead(p); c = p[lm]
            rules.append((lm, {n: -d / c for n, d in p.items() if n != lm}))
        # drop rules that could loop (replacement not smaller): lead() is a monomial order, so none can
        return not any(reduce(g, rules, deadline) for g in goals)
    except NotPoly: return False
