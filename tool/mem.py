"""Structured symbolic memory."""
from fractions import Fraction
import z3
from terms import *

class Unsupported(Exception): pass

class ForkOn(Exception):
    def __init__(self, conds): self.conds = conds

CANON = {'i8': (0, 255), 'i16': (0, 65535), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 'i1': (0, 1)}
SIZE = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'f': 4, 'd': 8, 'p': 8, 'i128': 16, 'x': 16}

class Region:
    __slots__ = ('id', 'name', 'stride', 'fam', 'size', 'kind', 'ty', 'zero', 'depth', 'const')
    def __init__(self, id, name, stride=None, fam=False, size=None, kind='heap', ty=None, zero=False):
        self.id = id; self.name = name; self.stride = stride; self.fam = fam
        self.size = size; self.kind = kind; self.ty = ty; self.zero = zero; self.const = False

class Ptr:
    __slots__ = ('r', 'obj', 'c', 'ts')
    def __init__(self, r, obj=None, c=0, ts=()):
        self.r = r; self.obj = obj; self.c = c; self.ts = ts
    def plus(self, c, ts=()):
        if not ts: return Ptr(self.r, self.obj, self.c + c, self.ts)
        d = {}
        for k, t in self.ts + tuple(ts):
            i = t.get_id()
            if i in d: d[i] = (d[i][0] + k, t)
            else: d[i] = (k, t)
        return Ptr(self.r, self.obj, self.c + c, tuple(sorted(((k, t) for k, t in d.values() if k), key=lambda x: x[1].get_id())))
    def __repr__(self): return f'Ptr({self.r.id if self.r else 0}:{self.r.name if self.r else "null"},{self.obj},{self.c},{self.ts})'

NULLREG = Region(0, 'null')
NULL = Ptr(NULLREG)
MAYBE_NULL = set()   # index symbols of array pointers that may be null (loops.py)

class Fn:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __repr__(self): return f'Fn({self.name})'

class Packed:
    """pieces: list of (off, ty, val); size in bytes."""
    __slots__ = ('size', 'pieces')
    def __init__(self, size, pieces): self.size = size; self.pieces = pieces
    def __repr__(self): return f'Packed({self.pieces})'

class Agg:
    __slots__ = ('vals',)
    def __init__(self, vals): self.vals = vals
    def __repr__(self): return f'Agg({self.vals})'

class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

class Arr:
    """indexed component: base z3 array (or None = unknown) + overlay writes."""
    __slots__ = ('base', 'writes', 'fam')
    def __init__(self, base=None, writes=(), fam=None):
        self.base = base; self.writes = writes; self.fam = fam

class RS:
    """Region state (copy on write)."""
    __slots__ = ('comps', 'dims', 'own')
    def __init__(self): self.comps = {}; self.dims = (); self.own = None
    def copy(self):
        r = RS(); r.comps = dict(self.comps); r.dims = self.dims; return r

_fresh = [0]
def fresh_name(n):
    _fresh[0] += 1
    return f'{n}!{_fresh[0]}'

def fresh_int(n, lo=None, hi=None):
    v = keep(z3.Int(fresh_name(n)))
    if lo is not None: set_itv(v, lo, hi)
    return v
def fresh_real(n): return keep(z3.Real(fresh_name(n)))
def fresh_bool(n): return keep(z3.Bool(fresh_name(n)))

def elem_sort(ty):
    if ty in ('f', 'd', 'x'): return z3.RealSort()
    return z3.IntSort()

def arr_sort(ty, n):
    s = elem_sort(ty)
    for _ in range(n): s = z3.ArraySort(z3.IntSort(), s)
    return s

BASEINFO = {}   # id of base array const -> (ty, ndims, const)

def fresh_arr(name, ty, n):
    a = keep(z3.Const(fresh_name(name), arr_sort(ty, n)))
    BASEINFO[a.get_id()] = (ty, n, a)
    return a

def sel(base, idx):
    t = base
    for i in idx: t = z3.Select(t, zi(i))
    return t

def diff(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    if isz(a) and isz(b) and a.eq(b): return 0
    return num(z3.simplify(zi(a) - zi(b)))

def idx_cmp(st, a, b):
    """True / False / z3 Bool."""
    cond = None
    for x, y in zip(a, b):
        d = diff(x, y)
        if isinstance(d, int):
            if d == 0: continue
            return False
        lx, hx = itv(x); ly, hy = itv(y)
        if hx < ly or hy < lx: return False
        e = zi(x) == zi(y)
        f = st.fact(e)
        if f is True: continue
        if f is False: return False
        cond = e if cond is None else z3.And(cond, e)
    return True if cond is None else cond

class Memory:
    """methods mixed into the executor; st.mem : dict rid -> RS."""

    def rs(self, st, r):
        m = st.mem.get(r.id)
        if m is None:
            m = RS(); m.own = st.token
            st.mem[r.id] = m
        return m

    def rsw(self, st, r):
        m = self.rs(st, r)
        if m.own is not st.token:
            m = m.copy(); m.own = st.token; st.mem[r.id] = m
        return m

    def norm(self, st, p, why='access'):
        """-> (off, idx tuple)"""
        r = p.r
        if r.id == 0: raise Unsupported(f'null dereference')
        idx = []
        if r.fam: idx.append(p.obj if p.obj is not None else 0)
        c = p.c; ts = list(p.ts)
        if r.stride:
            S = r.stride
            q, c = divmod(c, S)
            i = q; rest = []
            for k, t in ts:
                if k % S == 0: i = add(i, mul(t, k // S))
                else: rest.append((k, t))
            ts = rest
            idx.append(i)
        for (b, s, n) in self.rs(st, r).dims:
            if b <= c < b + n * s:
                q, rem = divmod(c - b, s)
                i = q; rest = []
                for k, t in ts:
                    if k % s == 0: i = add(i, mul(t, k // s))
                    else: rest.append((k, t))
                ts = rest
                idx.append(i); c = b + rem
        if ts:
            # concretise the first leftover term
            k, t = ts[0]
            f = st.known.get(t.get_id())
            if f is not None:
                return self.norm(st, Ptr(p.r, p.obj, p.c, ()).plus(0, tuple(x for x in p.ts if not x[1].eq(t))).plus(k * f))
            lo, hi = itv(t)
            vals = self.enum_values(st, t, 64)
            if vals is None: raise Unsupported(f'symbolic offset {t} in {r.name}')
            raise ForkOn([('known', t, v) for v in vals])
        return c, tuple(idx)

    def add_dim(self, st, p, s, n):
        """array step of stride s, n elements at pointer p."""
        r = p.r
        if r.id == 0: return
        if n <= 16: return
        if r.stride == s and p.c % s == 0: return
        c = p.c
        if r.stride: c %= r.stride
        m = self.rs(st, r)
        for (b, s2, n2) in m.dims:
            if b <= c < b + n2 * s2:
                if s2 == s: return
                c = b + (c - b) % s2
        d = (c, s, n)
        if d in m.dims: return
        m = self.rsw(st, r)
        # migrate
        old = m.comps; m.comps = {}
        m.dims = m.dims + (d,)
        nd = (1 if r.fam else 0) + (1 if r.stride else 0)
        for off, (ty, v) in old.items():
            if c <= off < c + n * s:
                q, rem = divmod(off - c, s)
                key = c + rem
                if isinstance(v, Arr):
                    if v.base is not None and not r.zero: raise Unsupported('dim migration of indexed component')
                    cur = m.comps.get(key)
                    a = cur[1] if cur else Arr(self.karr(0 if ty == 'p' else self.zero_of(ty), 'i64' if ty == 'p' else ty, nd + 1) if r.zero else None, (), v.fam)
                    m.comps[key] = (ty, Arr(a.base, a.writes + tuple((wi + (q,), wv) for wi, wv in v.writes), a.fam))
                    continue
                cur = m.comps.get(key)
                a = cur[1] if cur else Arr(None, ())
                m.comps[key] = (ty, Arr(a.base, a.writes + (((q,), v),)))
            else:
                m.comps[off] = (ty, v)

    def fresh_val(self, st, ty, name, r=None):
        if ty in ('f', 'd', 'x'): return fresh_real(name)
        if ty == 'p':
            fam = self.new_region(st, f'*{name}', fam=True)
            o = fresh_int('obj_' + name, 0, INF)
            st.add_fact(o >= 0)
            return Ptr(fam, o)
        lo, hi = CANON[ty]
        v = fresh_int(name, lo, hi)
        if ty != 'i64': st.add_fact(z3.And(v >= lo, v <= hi))
        return v

    def lazy(self, st, r, off, ty, nd):
        rid = r.id
        while rid in self.lazylink: rid = self.lazylink[rid]
        key = (rid, off, ty, nd)
        e = self.lazymemo.get(key)
        if e is None:
            tmp = len(st.pc)
            if nd == 0:
                v = self.fresh_val(st, ty, self.comp_name(r, off), r)
            elif ty == 'p':
                v = Arr(fresh_arr('obj_' + self.comp_name(r, off), 'i64', nd), (), self.new_region(st, f'*{self.comp_name(r, off)}', fam=True))
            else: v = Arr(fresh_arr(self.comp_name(r, off), ty, nd))
            e = self.lazymemo[key] = (v, list(st.pc[tmp:]))
        for f in e[1]: self.theory(st, f, closed=True)
        return e[0]

    def comp_name(self, r, off): return f'{r.name}.{off}'

    def zero_of(self, ty):
        if ty in ('f', 'd', 'x'): return Fraction(0)
        if ty == 'p': return NULL
        return 0

    def load(self, st, p, ty):
        if isinstance(p, Undef): raise Unsupported('load via undef')
        if not isinstance(p, Ptr): raise Unsupported(f'load via {p}')
        if p.r.id == 0:
            self.bad_path(st, 'null dereference'); 
        off, idx = self.norm(st, p)
        m = self.rs(st, p.r)
        e = m.comps.get(off)
        if e is not None and e[0] == ty:
            return self.read_comp(st, p.r, off, ty, e[1], idx)
        sz = SIZE[ty]
        if p.r.name == 'box' and e is not None and {e[0], ty} == {'i32', 'i64'}:   # an integer local, read at either width
            return self.read_comp(st, p.r, off, e[0], e[1], idx)
        # same size, other kind
        if e is not None and SIZE[e[0]] == sz:
            v = self.read_comp(st, p.r, off, e[0], e[1], idx)
            if isinstance(v, int) and v == 0: return self.zero_of(ty)
            if ty in ('f', 'd') and e[0] in ('f', 'd'): return v
            return Packed(sz, [(0, e[0], v)])
        inside = sorted((o, t) for o, (t, _) in m.comps.items() if off <= o < off + sz and (o > off or SIZE[t] <= sz))
        if inside:
            return Packed(sz, [(o - off, t, self.read_comp(st, p.r, o, t, m.comps[o][1], idx)) for o, t in inside])
        # contained in a larger component
        for o, (t, v) in m.comps.items():
            if o <= off and off + sz <= o + SIZE[t]:
                big = self.read_comp(st, p.r, o, t, v, idx)
                if isinstance(big, Packed):
                    for (po, pt, pv) in big.pieces:
                        if po == off - o and pt == ty: return pv
                if isinstance(big, int) and big == 0: return self.zero_of(ty)
                if isinstance(big, (int, z3.ExprRef)) and t.startswith('i') and ty.startswith('i'):
                    u = fmod(fdiv(big, 256 ** (off - o)), 256 ** sz)
                    lo, hi = CANON[ty]
                    if lo < 0: u = ite(icmp_le(u, hi), u, sub(u, 256 ** sz))
                    return u
        # lazily create
        leaf = self.leaf_layout(p.r, off, sz)
        if leaf and not (len(leaf) == 1 and leaf[0][1] == ty and leaf[0][0] == off):
            ps = []
            for lo_, lt in leaf:
                ps.append((lo_ - off, lt, self.load(st, self.at(p, lo_ - off), lt)))
            return Packed(sz, ps)
        m = self.rsw(st, p.r)
        if idx:
            if p.r.zero:
                if ty == 'p': a = Arr(self.karr(0, 'i64', len(idx)), (), self.new_region(st, f'*{self.comp_name(p.r, off)}', fam=True))
                else: a = Arr(self.karr(self.zero_of(ty), ty, len(idx)))
            else: a = self.lazy(st, p.r, off, ty, len(idx))
            m.comps[off] = (ty, a)
            return self.read_comp(st, p.r, off, ty, a, idx)
        v = self.zero_of(ty) if p.r.zero else self.lazy(st, p.r, off, ty, 0)
        m.comps[off] = (ty, v)
        return v

    def at(self, p, d): return Ptr(p.r, p.obj, p.c + d, p.ts)

    def leaf_layout(self, r, off, sz):
        """leaf fields [(off,ty)] of the declared type inside [off,off+sz), if known."""
        if r.ty is None or r.stride and r.size is None and r.ty is None: return None
        L = self.leaves(r.ty)
        if L is None: return None
        out = [(o, t) for o, t in L if off <= o < off + sz]
        return out or None

    def karr(self, v, ty, n):
        t = zr(v) if ty in ('f', 'd', 'x') else zi(v)
        for _ in range(n): t = z3.K(z3.IntSort(), t)
        return keep(t)

    def read_comp(self, st, r, off, ty, v, idx):
        if not isinstance(v, Arr):
            if idx and not isinstance(v, Arr): raise Unsupported('indexed read of scalar component')
            return v
        a = v
        pend = []
        res = None
        for wi, wv in reversed(a.writes):
            c = idx_cmp(st, idx, wi)
            if c is False: continue
            if c is True: res = wv; break
            f = st.fact(c)
            if f is True: res = wv; break
            if f is False: continue
            if ty == 'p' and not self.same_fam(wv, a):
                raise ForkOn([('fact', c, True), ('fact', c, False)])
            if isinstance(wv, Packed):
                raise ForkOn([('fact', c, True), ('fact', c, False)])
            pend.append((c, wv))
        if res is None:
            if a.base is None:
                # unknown base: create
                lz = self.lazy(st, r, off, ty, len(idx))
                a2 = Arr(lz.base, a.writes, a.fam if a.fam is not None else lz.fam)
                m = self.rsw(st, r); m.comps[off] = (ty, a2); a = a2
            t = sel(a.base, idx)
            if ty == 'p':
                t = keep(z3.simplify(t))
                if z3.is_int_value(t) and t.as_long() == 0: res = NULL
            if res is NULL: pass
            elif ty == 'p':
                if a.fam is None: raise Unsupported('pointer array of unknown family')
                set_itv(t, 0, INF)
                if st.quant: self.need_axiom(a.base, True)
                else: st.add_fact(keep(t >= 0))
                res = Ptr(a.fam, t)
            elif ty in ('f', 'd', 'x'):
                t = z3.simplify(t); keep(t)
                res = rnum(t)
            else:
                t = keep(z3.simplify(t))
                res = num(t)
                if isz(res) and itv(res) == (-INF, INF):
                    lo, hi = CANON[ty]
                    set_itv(res, lo, hi)
                if isz(res) and ty != 'i64':
                    lo, hi = CANON[ty]
                    if st.quant: self.need_axiom(a.base)
                    else: self.theory(st, keep(z3.And(res >= lo, res <= hi)))
        for c, wv in reversed(pend):
            res = self.ite_val(c, wv, res, ty)
        return res

    def same_fam(self, v, a):
        return isinstance(v, Ptr) and v.r is a.fam and v.c == 0 and not v.ts

    def ite_val(self, c, a, b, ty=None):
        if isinstance(c, bool): return a if c else b
        if a is b: return a
        if isinstance(a, Undef): return b
        if isinstance(b, Undef): return a
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r is b.r and a.obj is b.obj and a.c == b.c and a.ts == b.ts: return a
                if a.r is b.r and a.c == b.c and a.ts == b.ts and a.r.fam:
                    return Ptr(a.r, ite(c, a.obj, b.obj), a.c, a.ts)
                if a.r is b.r and (a.obj is b.obj):
                    # merge linear offsets: common stride
                    d = self.lin_diff(a, b)
                    if d is not None:
                        g, e = d   # a - b == g * e
                        return b.plus(0, ((g, self.term(ite(c, e, 0))),)) if g else a
                if a.r.fam and b.r.id == 0: return Ptr(a.r, ite(c, a.obj, 0), a.c, a.ts) if a.c == 0 and not a.ts else None
                if b.r.fam and a.r.id == 0: return Ptr(b.r, ite(c, 0, b.obj), b.c, b.ts) if b.c == 0 and not b.ts else None
            raise Unsupported('merge of pointers')
        if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)) or (isz(b) and z3.is_bool(b)):
            return keep(z3.If(c, zb(a), zb(b)))
        if isinstance(a, Fraction) or isinstance(b, Fraction) or (isz(a) and z3.is_real(a)):
            return rite(c, a, b)
        if isinstance(a, (int, z3.ExprRef)) and isinstance(b, (int, z3.ExprRef)): return ite(c, a, b)
        if isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name: return a
        raise Unsupported(f'merge of {type(a)} {type(b)}')

    def term(self, v):
        return zi(v) if isinstance(v, int) else v

    def lin_diff(self, a, b):
        """a - b as (g, term) with byte difference g*term; (0,0) if equal."""
        d = {}
        for k, t in a.ts: d[t.get_id()] = [k, t]
        for k, t in b.ts:
            if t.get_id() in d: d[t.get_id()][0] -= k
            else: d[t.get_id()] = [-k, t]
        c = a.c - b.c
        items = [(k, t) for k, t in d.values() if k]
        if not items:
            return (1, c)
        from math import gcd
        g = abs(c)
        for k, t in items: g = gcd(g, abs(k))
        e = c // g
        for k, t in items: e = add(e, mul(t, k // g))
        return (g, e)

    def store(self, st, p, ty, v):
        if not isinstance(p, Ptr): raise Unsupported(f'store via {p}')
        if p.r.id == 0: self.bad_path(st, 'null dereference')
        if isinstance(v, Packed) :
            self.clear_range(st, p, SIZE[ty] if ty in SIZE else v.size)
            for o, t, pv in v.pieces: self.store(st, self.at(p, o), t, pv)
            return
        off, idx = self.norm(st, p)
        if st.quant and p.r.id <= st.qmark: raise Unsupported('write in pure context')
        m = self.rsw(st, p.r)
        e = m.comps.get(off)
        if e is None and p.r.zero and p.r.fam and (v is NULL or (isinstance(v, int) and not isinstance(v, bool) and v == 0)) and not any(o < off + SIZE[ty] and off < o + SIZE[t] for o, (t, _) in m.comps.items()):
            return      # already zero
        if e is None or e[0] != ty:
            self.split_for(st, p, off, SIZE[ty], idx)
            m = self.rsw(st, p.r)
        if st.wlog is not None:
            st.wlog.add((p.r.id, off))
            self.comp_ty[(p.r.id, off)] = ty; self.comp_nd[(p.r.id, off)] = len(idx)
            if ty == 'p' and isinstance(v, Ptr) and v.r.fam: self.comp_fam[(p.r.id, off)] = v.r
        if not idx:
            m.comps[off] = (ty, v); return
        if ty in CANON and isinstance(v, (int, z3.ExprRef)) and not isinstance(v, bool):
            v = self.canon(st, v, ty)
        e = m.comps.get(off)
        a = e[1] if e is not None and e[0] == ty else None
        if a is None:
            a = Arr(self.karr(self.zero_of(ty), ty, len(idx)) if p.r.zero and ty != 'p' else None)
        if isinstance(v, Undef): v = self.fresh_val(st, ty, 'undef')
        if ty == 'p' and isinstance(v, Ptr) and v.r.fam and a.fam is None:
            a = Arr(a.base, a.writes, v.r)
        if ty == 'p' and v is NULL and a.fam is not None: v = Ptr(a.fam, 0)
        ws = tuple(w for w in a.writes if idx_cmp(st, w[0], idx) is not True)
        if len(ws) > 12 and ty != 'p' and not any(isinstance(w[1], (Packed,)) for w in ws) and not all(isinstance(i, int) for w in ws for i in w[0]):
            base = a.base if a.base is not None else fresh_arr(self.comp_name(p.r, off), ty, len(idx))
            for wi, wv in ws: base = self.zstore(base, wi, wv, ty)
            a = Arr(keep(base), (), a.fam); ws = ()
        m.comps[off] = (ty, Arr(a.base, ws + ((idx, v),), a.fam))

    def zstore(self, base, idx, v, ty):
        t = zr(v) if ty in ('f', 'd', 'x') else zi(v)
        if len(idx) == 1: return z3.Store(base, zi(idx[0]), t)
        inner = z3.Select(base, zi(idx[0]))
        return z3.Store(base, zi(idx[0]), self.zstore(inner, idx[1:], v, ty))

    def clear_range(self, st, p, sz):
        off, idx = self.norm(st, p)
        self.split_for(st, p, off, sz, idx)

    def split_for(self, st, p, off, sz, idx, same=()):
        """remove components overlapping [off,off+sz) that do not match exactly."""
        m = self.rsw(st, p.r)
        for o in list(m.comps):
            t, v = m.comps[o]
            s = SIZE[t]
            if o < off + sz and off < o + s and (o, t) not in same:
                if o >= off and o + s <= off + sz:
                    if not isinstance(v, Arr):
                        del m.comps[o]
                    # indexed: other elements keep their own view; leave it
                    elif o == off and t in SIZE and s == sz:
                        raise Unsupported('retyping of indexed component')
                elif isinstance(v, Arr):
                    raise Unsupported('partial overwrite of indexed component')
                else:
                    if isinstance(v, Packed):
                        del m.comps[o]
                        for po, pt, pv in v.pieces:
                            if not (o + po < off + sz and off < o + po + SIZE[pt]): m.comps[o + po] = (pt, pv)
                    elif t.startswith('i') and isinstance(v, (int, z3.ExprRef)):
                        # split integer into bytes groups around the write
                        del m.comps[o]
                        pieces = []
                        if o < off: pieces.append((o, off - o))
                        if off + sz < o + s: pieces.append((off + sz, o + s - off - sz))
                        for po, ps in pieces:
                            q = po
                            while ps:
                                w = next(x for x in (8, 4, 2, 1) if x <= ps and q % x == 0)
                                nm = f'i{8 * w}'
                                u = fmod(fdiv(v, 256 ** (q - o)), 256 ** w)
                                lo, hi = CANON[nm]
                                if lo < 0: u = ite(icmp_le(u, hi), u, sub(u, 256 ** w))
                                m.comps[q] = (nm, u)
                                q += w; ps -= w
                    else: raise Unsupported(f'partial overwrite of {t}')

    def memcpy(self, st, dst, src, n):
        """n concrete bytes."""
        if n == 0: return
        off, idx = self.norm(st, src)
        doff, didx = self.norm(st, dst)
        # materialise by declared layout
        L = None
        base = off
        L = self.leaf_layout(src.r, off, n)
        if L is None:
            Ld = self.leaf_layout(dst.r, doff, n)
            if Ld: L = [(o - doff + off, t) for o, t in Ld]
        m = self.rs(st, src.r)
        have = {o: t for o, (t, _) in m.comps.items() if off <= o < off + n}
        todo = dict(have)
        if L:
            for o, t in L:
                if not any(h < o + SIZE[t] and o < h + SIZE[ht] for h, ht in have.items()): todo[o] = t
        elif not have:
            if n in (1, 2, 4, 8): todo = {off: f'i{8 * n}'}
            else:
                raise Unsupported(f'memcpy of untyped memory {src} {n}')
        vals = [(o - off, t, self.load(st, self.at(src, o - off), t)) for o, t in sorted(todo.items())]
        self.split_for(st, dst, doff, n, didx, {(doff + o, t) for o, t, v in vals})
        for o, t, v in vals: self.store(st, self.at(dst, o), t, v)

    def zero_object(self, st, r, obj):
        """a whole (freshly allocated) object of a family set to zero."""
        m = self.rsw(st, r)
        for off, (ty, v) in list(m.comps.items()):
            if not isinstance(v, Arr): raise Unsupported('zero_object')
            if ty == 'p' and v.writes: raise Unsupported('zero_object of pointers')
            nd = 1 + sum(1 for (b, s, n) in m.dims if b <= off < b + n * s)
            if v.base is None:
                z = self.lazy(st, r, off, ty, nd) if not r.zero else Arr(self.karr(self.zero_of(ty) if ty != 'p' else 0, ty if ty != 'p' else 'i64', nd), (), v.fam)
                v = Arr(z.base, v.writes, v.fam if v.fam is not None else z.fam)
            base = v.base
            for wi, wv in v.writes: base = self.zstore(base, wi, wv, ty)
            zt = 'i64' if ty == 'p' else ty
            z = self.karr(0 if ty == 'p' else self.zero_of(ty), zt, nd - 1) if nd > 1 else (zr(0) if ty in ('f', 'd', 'x') else zi(0))
            m.comps[off] = (ty, Arr(keep(z3.Store(base, zi(obj), z)), (), v.fam))
        r.zero = True      # components not yet touched: zero for every object (all start zeroed)
        if st.wlog is not None: st.wlog.add((r.id, None))

    def memset(self, st, dst, val, n):
        off, idx = self.norm(st, dst)
        if not isinstance(val, int): raise Unsupported('memset symbolic')
        if val & 255: raise Unsupported('memset nonzero')
        L = self.leaf_layout(dst.r, off, n)
        if dst.r.fam and dst.r.size is not None and n >= dst.r.size and off == 0 and len(idx) == 1:
            return self.zero_object(st, dst.r, idx[0])
        self.clear_range(st, dst, n)
        if L:
            for o, t in L: self.store(st, self.at(dst, o - off), t, self.zero_of(t))
            return
        if dst.r.size is not None and n >= dst.r.size and not idx and dst.r.kind == 'heap':
            dst.r.zero = True   # whole object
            return
        if idx:
            # components not yet touched stay unknown (an over-approximation of zero)
            for o, (t, _) in sorted(self.rs(st, dst.r).comps.items()):
                if off <= o and o + SIZE[t] <= off + n: self.store(st, self.at(dst, o - off), t, self.zero_of(t))
            return
        # untyped: zero bytes by 8
        o = 0
        while o < n:
            w = next(x for x in (8, 4, 2, 1) if x <= n - o and (off + o) % x == 0)
            self.store(st, self.at(dst, o), f'i{8 * w}', 0)
            o += w
