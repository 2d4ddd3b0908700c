"""Value layer: Python ints / z3 Int, bool / z3 Bool, Fraction / z3 Real."""
from fractions import Fraction
import z3

INF = float('inf')
ITV = {}       # ast id -> (lo, hi)   (keeps references in KEEP)
TZ = {}        # ast id -> known trailing zero bits
BOOLINT = {}   # ast id of If(b,1,0) -> b
KEEP = {}

def isz(v):
    return isinstance(v, z3.ExprRef)

def keep(t):
    KEEP[t.get_id()] = t
    return t

def itv(v):
    if isinstance(v, bool): return (int(v), int(v))
    if isinstance(v, int): return (v, v)
    r = ITV.get(v.get_id())
    if r is not None: return r
    return (-INF, INF)

def set_itv(t, lo, hi):
    if isz(t):
        keep(t)
        ITV[t.get_id()] = (lo, hi)
    return t

def num(t):
    """z3 numeral -> python int, else t."""
    if isz(t) and z3.is_int_value(t): return t.as_long()
    return t

def zi(v):
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    return v

def zr(v):
    if isinstance(v, Fraction): return z3.Q(v.numerator, v.denominator)
    if isinstance(v, int): return z3.RealVal(v)
    return v

def zb(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    return v

def add(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(b, int) and b == 0: return a
    if isinstance(a, int) and a == 0: return b
    la, ha = itv(a); lb, hb = itv(b)
    # fold (x + c1) + c2
    if isinstance(b, int) and isz(a) and z3.is_add(a) and a.num_args() == 2 and z3.is_int_value(a.arg(1)):
        r = add(keep(a.arg(0)), a.arg(1).as_long() + b)
        if isz(r):
            l0, h0 = itv(r)
            set_itv(r, max(l0, la + lb), min(h0, ha + hb))
        return r
    if isinstance(a, int): a, b = b, a; 
    t = zi(a) + zi(b)
    tz = min(tzof(a), tzof(b))
    keep(t)
    if tz: TZ[t.get_id()] = tz
    return set_itv(t, la + lb, ha + hb)

def neg(a):
    return mul(a, -1)

def sub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    if isinstance(b, int): return add(a, -b)
    if isz(a) and isz(b) and a.eq(b): return 0
    la, ha = itv(a); lb, hb = itv(b)
    t = zi(a) - zi(b)
    # cancel simple patterns
    s = num(lin_simpl(t))
    if isinstance(s, int): return s
    if s.num_args() <= 2 and not s.eq(t): t = s
    l0, h0 = itv(t)
    return set_itv(t, max(l0, la - hb), min(h0, ha - lb))

def lin_simpl(t):
    return z3.simplify(t)

def _pm(a, b):
    if a == 0 or b == 0: return 0
    return a * b

def mul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    if isinstance(a, int): a, b = b, a
    if isinstance(b, int):
        if b == 0: return 0
        if b == 1: return a
    la, ha = itv(a); lb, hb = itv(b)
    c = [_pm(la, lb), _pm(la, hb), _pm(ha, lb), _pm(ha, hb)]
    t = zi(a) * zi(b)
    keep(t)
    tz = tzof(a) + tzof(b)
    if tz: TZ[t.get_id()] = tz
    return set_itv(t, min(c), max(c))

def tzof(v):
    if isinstance(v, int):
        if v == 0: return 10**6
        return (v & -v).bit_length() - 1
    return TZ.get(v.get_id(), 0)

def fdiv(a, c):
    """floor division by a positive constant."""
    if isinstance(a, int): return a // c
    if c == 1: return a
    la, ha = itv(a)
    lo = la if la == -INF else la // c
    hi = ha if ha == INF else ha // c
    if lo == hi: return lo
    if la >= 0 and ha < c: return 0
    # (x*c + y) // c with 0 <= y < c
    r = _split_mod(a, c)
    if r is not None: return r[0]
    return set_itv(keep(zi(a) / z3.IntVal(c)), lo, hi)

def fmod(a, c):
    if isinstance(a, int): return a % c
    if c == 1: return 0
    la, ha = itv(a)
    if la >= 0 and ha < c: return a
    if tzof(a) >= (c & -c).bit_length() - 1 and c & (c - 1) == 0: return 0
    r = _split_mod(a, c)
    if r is not None: return r[1]
    return set_itv(keep(zi(a) % z3.IntVal(c)), 0, c - 1)

def _split_mod(a, c):
    """a == q*c + r syntactically with 0 <= r < c -> (q, r)."""
    if not isz(a): return None
    parts = []
    def flat(t):
        if z3.is_add(t):
            for i in range(t.num_args()): flat(t.arg(i))
        else: parts.append(t)
    flat(a)
    q = 0; r = 0
    for p in parts:
        p = keep(p)
        if z3.is_int_value(p):
            v = p.as_long()
            q = add(q, v // c); r = add(r, v % c); continue
        if z3.is_mul(p) and p.num_args() == 2:
            x, y = keep(p.arg(0)), keep(p.arg(1))
            if z3.is_int_value(x): x, y = y, x
            if z3.is_int_value(y) and y.as_long() % c == 0:
                q = add(q, mul(x, y.as_long() // c)); continue
        r = add(r, p)
    lo, hi = itv(r)
    if isinstance(q, int) and q == 0: return None
    if lo >= 0 and hi < c: return (q, r)
    return None

def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if isinstance(a, int) and not isinstance(a, bool) and isinstance(b, int) and a == b: return a
    if isz(a) and isz(b) and a.eq(b): return a
    t = z3.If(c, zi(a), zi(b))
    la, ha = itv(a); lb, hb = itv(b)
    if a == 1 and b == 0 if (isinstance(a, int) and isinstance(b, int)) else False:
        keep(t); BOOLINT[t.get_id()] = c; keep(c)
    return set_itv(t, min(la, lb), max(ha, hb))

def b2i(b):
    if isinstance(b, bool): return int(b)
    return ite(b, 1, 0)

def boolof(v):
    """If v is If(b,1,0) return b else None."""
    if isinstance(v, int): return None
    return BOOLINT.get(v.get_id())

def band(a, b):
    if isinstance(a, bool): return b if a else False
    if isinstance(b, bool): return a if b else False
    return z3.And(a, b)

def bor(a, b):
    if isinstance(a, bool): return True if a else b
    if isinstance(b, bool): return True if b else a
    return z3.Or(a, b)

def bnot(a):
    if isinstance(a, bool): return not a
    if z3.is_not(a): return keep(a.arg(0))
    return z3.Not(a)

def bxor(a, b):
    if isinstance(a, bool): return bnot(b) if a else b
    if isinstance(b, bool): return bnot(a) if b else a
    return z3.Xor(a, b)

def icmp_eq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    for x, y in ((a, b), (b, a)):
        if isinstance(y, int) and isz(x):
            bo = boolof(x)
            if bo is not None:
                if y == 1: return bo
                if y == 0: return bnot(bo)
                return False
    la, ha = itv(a); lb, hb = itv(b)
    if ha < lb or hb < la: return False
    if isz(a) and isz(b) and a.eq(b): return True
    return zi(a) == zi(b)

def icmp_lt(a, b):
    if isinstance(a, int) and isinstance(b, int): return a < b
    la, ha = itv(a); lb, hb = itv(b)
    if ha < lb: return True
    if la >= hb: return False
    if isz(a) and isz(b) and a.eq(b): return False
    return zi(a) < zi(b)

def icmp_le(a, b):
    return bnot(icmp_lt(b, a))

# ---- reals
def isnum(v): return isinstance(v, (int, Fraction)) and not isinstance(v, bool)
def rnum(t):
    if isz(t) and z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return t
def radd(a, b):
    if isnum(a) and isnum(b): return a + b
    if isnum(a) and a == 0: return b
    if isnum(b) and b == 0: return a
    return zr(a) + zr(b)
def rsub(a, b):
    if isnum(a) and isnum(b): return a - b
    if isnum(b) and b == 0: return a
    if isz(a) and isz(b) and a.eq(b): return Fraction(0)
    return zr(a) - zr(b)
def rmul(a, b):
    if isnum(a) and isnum(b): return a * b
    for x, y in ((a, b), (b, a)):
        if isnum(x):
            if x == 0: return Fraction(0)
            if x == 1: return y
    return zr(a) * zr(b)
def rneg(a):
    if isnum(a): return -a
    return -a
def rlt(a, b):
    if isnum(a) and isnum(b): return a < b
    if isz(a) and isz(b) and a.eq(b): return False
    return zr(a) < zr(b)
def rle(a, b):
    if isnum(a) and isnum(b): return a <= b
    if isz(a) and isz(b) and a.eq(b): return True
    return zr(a) <= zr(b)
def req(a, b):
    if isnum(a) and isnum(b): return a == b
    if isz(a) and isz(b) and a.eq(b): return True
    return zr(a) == zr(b)
def rite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if isz(a) and isz(b) and a.eq(b): return a
    if isnum(a) and isnum(b) and a == b: return a
    return z3.If(c, zr(a), zr(b))
def int2real(a):
    if isinstance(a, int): return Fraction(a)
    return z3.ToReal(a)
