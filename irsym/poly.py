"""Exact multivariate rational-function arithmetic over algebraic (sqrt / sin-cos) extensions.

A value is num/den; num a sparse polynomial with rational coefficients, den a product of
interned primitive factors.  Extension variables carry a rewrite rule v^2 -> polynomial
(square roots: s^2 -> radicand, cosines: c^2 -> 1 - s^2), so the normal form of a polynomial
identity that follows from those definitions is the zero polynomial."""
from fractions import Fraction
from math import gcd, isqrt
import math

class VarInfo:
    __slots__ = ('id', 'name', 'kind', 'arg', 'rule', 'nonneg', 'z', 'partner')
    def __init__(s, id, name, kind, arg=None):
        s.id = id; s.name = name; s.kind = kind; s.arg = arg; s.rule = None; s.nonneg = False; s.z = None; s.partner = None

VARS = []
RULES = {}          # var id -> Poly that v^2 rewrites to

def reset():
    VARS.clear(); RULES.clear(); _sqrt_cache.clear(); _factor_cache.clear()

def new_var(name, kind='in', arg=None):
    v = VarInfo(len(VARS), name, kind, arg)
    VARS.append(v)
    return v

def norm_c(c):
    if type(c) is Fraction and c.denominator == 1: return c.numerator
    return c

def mono_mul(a, b):
    if not a: return b
    if not b: return a
    r = []; i = j = 0; na = len(a); nb = len(b)
    while i < na and j < nb:
        x = a[i]; y = b[j]
        if x[0] == y[0]: r.append((x[0], x[1] + y[1])); i += 1; j += 1
        elif x[0] < y[0]: r.append(x); i += 1
        else: r.append(y); j += 1
    if i < na: r.extend(a[i:])
    if j < nb: r.extend(b[j:])
    return tuple(r)

def mono_div(a, b):
    """a / b or None"""
    if not b: return a
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0: return None
        if x == 0: d.pop(v, None)
        else: d[v] = x
    return tuple(sorted(d.items()))

def mono_key(m):
    # graded lex
    return (sum(e for _, e in m), tuple((-v, e) for v, e in m))

class Poly:
    __slots__ = ('d', '_h', '_vars')
    def __init__(s, d):
        s.d = d; s._h = None; s._vars = None
    def __hash__(s):
        if s._h is None: s._h = hash(frozenset(s.d.items()))
        return s._h
    def __eq__(s, o):
        return s.d == o.d
    def is_zero(s): return not s.d
    def is_const(s): return not s.d or (len(s.d) == 1 and () in s.d)
    def const(s): return s.d.get((), 0)
    def vars(s):
        if s._vars is None:
            s._vars = frozenset(v for m in s.d for v, _ in m)
        return s._vars
    def __neg__(s): return Poly({m: -c for m, c in s.d.items()})
    def __add__(s, o):
        if len(s.d) < len(o.d): s, o = o, s
        r = dict(s.d)
        for m, c in o.d.items():
            x = r.get(m)
            if x is None: r[m] = c
            else:
                x = x + c
                if x == 0: del r[m]
                else: r[m] = norm_c(x)
        return Poly(r)
    def __sub__(s, o): return s + (-o)
    def scale(s, k):
        if k == 0: return ZERO
        if k == 1: return s
        return Poly({m: norm_c(c * k) for m, c in s.d.items()})
    def __mul__(s, o):
        if not s.d or not o.d: return ZERO
        if o.is_const(): return s.scale(o.d[()])
        if s.is_const(): return o.scale(s.d[()])
        r = {}
        need = False
        budget(len(s.d) * len(o.d))
        for m1, c1 in s.d.items():
            for m2, c2 in o.d.items():
                m = mono_mul(m1, m2)
                r[m] = r.get(m, 0) + c1 * c2
        r = {m: norm_c(c) for m, c in r.items() if c != 0}
        if RULES:
            for m in r:
                for v, e in m:
                    if e > 1 and v in RULES: need = True; break
                if need: break
            if need: return reduce_(Poly(r))
        return Poly(r)
    def pow(s, n):
        r = ONE
        b = s
        while n:
            if n & 1: r = r * b
            n >>= 1
            if n: b = b * b
        return r
    def lead(s):
        return max(s.d, key=mono_key)
    def __repr__(s):
        if not s.d: return '0'
        return ' + '.join('%s%s' % (c, ''.join('*%s%s' % (VARS[v].name, '^%d' % e if e > 1 else '') for v, e in m)) for m, c in sorted(s.d.items(), key=lambda t: mono_key(t[0]), reverse=True)[:30]) + ('...' if len(s.d)>30 else '')

class PolyBudget(Exception): pass
_cnt = [0, None]
def set_budget(n): _cnt[0] = 0; _cnt[1] = n
def budget(n):
    _cnt[0] += n
    if n > 4_000_000: raise PolyBudget("polynomial product too large (%d)" % n)

ZERO = Poly({}); ONE = Poly({(): 1})
def pconst(c):
    return Poly({(): norm_c(c)}) if c != 0 else ZERO
def pvar(v): return Poly({((v, 1),): 1})

def reduce_(p):
    """apply v^2 -> rule until no rule variable has exponent >1"""
    while True:
        # choose highest id variable with exponent > 1
        tgt = -1
        for m in p.d:
            for v, e in m:
                if e > 1 and v in RULES and v > tgt: tgt = v
        if tgt < 0: return p
        rule = RULES[tgt]
        keep = {}
        by = {}
        for m, c in p.d.items():
            e = 0
            for v, ee in m:
                if v == tgt: e = ee
            if e <= 1: keep[m] = c
            else:
                q = e // 2; r = e % 2
                mm = tuple((v, ee) if v != tgt else (v, 1) for v, ee in m if v != tgt or r)
                by.setdefault(q, {})[mm] = c
        out = Poly(keep)
        for q, d in by.items():
            out = out + _rawmul(Poly(d), rule.pow(q))
        p = out

def _rawmul(a, b):
    r = {}
    budget(len(a.d) * len(b.d))
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return Poly({m: norm_c(c) for m, c in r.items() if c != 0})

def content(p):
    """rational content c (positive, times sign of lead coef) so p/c primitive with positive lead"""
    num = 0; den = 1
    for c in p.d.values():
        if type(c) is Fraction:
            den = den * c.denominator // gcd(den, c.denominator)
    for c in p.d.values():
        num = gcd(num, int(c * den))
    c = Fraction(num, den)
    if p.d[p.lead()] < 0: c = -c
    return norm_c(c)

def mono_content(p):
    it = iter(p.d)
    m0 = dict(next(it))
    for m in it:
        if not m0: break
        dm = dict(m)
        for v in list(m0):
            e = dm.get(v, 0)
            if e < m0[v]:
                if e == 0: del m0[v]
                else: m0[v] = e
    return tuple(sorted(m0.items()))

def exact_div(a, b, limit=20000):
    """a/b if exact (as plain polynomials, ignoring rewrite rules) else None"""
    if b.is_const(): return a.scale(Fraction(1) / b.const())
    if a.is_zero(): return ZERO
    bv = b.vars()
    if not bv <= a.vars(): return None
    if len(b.d) == 1:
        (bm, bc), = b.d.items()
        r = {}
        for m, c in a.d.items():
            q = mono_div(m, bm)
            if q is None: return None
            r[q] = norm_c(Fraction(c) / bc)
        return Poly(r)
    # degree quick checks
    lb = b.lead(); lbc = b.d[lb]
    rem = dict(a.d); quo = {}
    # quick reject on lead and on trail monomials
    if mono_div(a.lead(), lb) is None: return None
    tb = min(b.d, key=mono_key); ta = min(a.d, key=mono_key)
    if mono_div(ta, tb) is None: return None
    steps = 0
    import heapq
    heap = [_neg(m) for m in rem]
    heapq.heapify(heap)
    while heap:
        nk, m = heapq.heappop(heap)
        c = rem.get(m)
        if c is None: continue
        q = mono_div(m, lb)
        if q is None: return None
        qc = norm_c(Fraction(c) / lbc)
        quo[q] = qc
        for bm, bc in b.d.items():
            mm = mono_mul(q, bm)
            x = rem.get(mm)
            if x is None:
                rem[mm] = norm_c(-qc * bc); heapq.heappush(heap, _neg(mm))
            else:
                y = x - qc * bc
                if y == 0: del rem[mm]
                else: rem[mm] = norm_c(y)
        steps += len(b.d)
        if steps > limit: return None
    return Poly(quo)

class _K:
    __slots__ = ('k',)
    def __init__(s, k): s.k = k
    def __lt__(s, o): return s.k > o.k
    def __eq__(s, o): return s.k == o.k
def _neg(m): return (_K(mono_key(m)), m)

def poly_sqrt(p):
    """q with q^2 == p (plain) or None"""
    if p.is_zero(): return ZERO
    if len(p.d) > 200: return None
    l = p.lead(); c = p.d[l]
    if any(e % 2 for _, e in l) or c < 0: return None
    r = frac_sqrt(Fraction(c))
    if r is None: return None
    lm = tuple((v, e // 2) for v, e in l)
    q = Poly({lm: norm_c(r)})
    rem = p - _rawmul(q, q)
    n = 0
    lk = mono_key(lm)
    while not rem.is_zero():
        m = rem.lead()
        t = mono_div(m, lm)
        if t is None or not (mono_key(t) < lk): return None
        tc = norm_c(Fraction(rem.d[m]) / (2 * r))
        tp = Poly({t: tc})
        rem = rem - _rawmul(q.scale(2), tp) - _rawmul(tp, tp)
        q = q + tp
        n += 1
        if n > 60: return None
    return q

def frac_sqrt(c):
    if c < 0: return None
    a = isqrt(c.numerator); b = isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator: return Fraction(a, b)
    return None

def syn_nonneg(p):
    """syntactic: every monomial is even (or a product of nonneg vars) with positive coefficient"""
    for m, c in p.d.items():
        if c < 0: return False
        for v, e in m:
            if e % 2 and not VARS[v].nonneg: return False
    return True

_factor_cache = {}
_sqrt_cache = {}

class RF:
    """rational function value"""
    __slots__ = ('n', 'den', 'nn', '_h')
    def __init__(s, n, den=(), nn=False):
        s.n = n; s.den = den; s.nn = nn; s._h = None     # den: tuple of (Poly, exp) sorted by id-hash
    def __hash__(s):
        if s._h is None: s._h = hash((s.n, s.den))
        return s._h
    def __eq__(s, o): return isinstance(o, RF) and s.n == o.n and s.den == o.den
    def is_const(s): return not s.den and s.n.is_const()
    def const(s): return s.n.const()
    def vars(s):
        v = s.n.vars()
        for f, _ in s.den: v = v | f.vars()
        return v
    def __repr__(s):
        if not s.den: return 'RF(%r)' % s.n
        return 'RF((%r)/%s)' % (s.n, '*'.join('(%r)^%d' % (f, e) for f, e in s.den))

def rconst(c): 
    return RF(pconst(c), (), c >= 0)
def rvar(v): return RF(pvar(v), (), VARS[v].nonneg)
RZERO = rconst(0); RONE = rconst(1)

def _dkey(f): return (len(f.d), hash(f))

def mk(n, dend, nn=False):
    """build RF from num and dict factor->exp, with cancellation"""
    if n.is_zero(): return RZERO
    if dend:
        # sqrt-variable factors: s^2 -> radicand
        for f in list(dend):
            if len(f.d) == 1 and dend[f] >= 2:
                (m, c), = f.d.items()
                if len(m) == 1 and m[0][1] == 1 and m[0][0] in RULES and VARS[m[0][0]].kind == 'sqrt':
                    e = dend.pop(f)
                    if e % 2: dend[f] = 1
                    k, fs = split_factors(RULES[m[0][0]])
                    n = n.scale(Fraction(1) / (Fraction(k) ** (e // 2)))
                    for g, ge in fs.items(): dend[g] = dend.get(g, 0) + ge * (e // 2)
        for f in list(dend):
            while dend[f] > 0:
                if len(n.d) * len(f.d) > 40000: break
                q = exact_div(n, f)
                if q is None: break
                n = q; dend[f] -= 1
            if dend[f] == 0: del dend[f]
        den = tuple(sorted(dend.items(), key=lambda t: (_dkey(t[0]), t[1])))
    else: den = ()
    return RF(n, den, nn)

def split_factors(p):
    """p (nonzero) = k * prod factors ; factors interned primitive polys"""
    k = content(p)
    if k != 1: p = p.scale(Fraction(1) / k)
    mc = mono_content(p)
    fs = {}
    if mc:
        for v, e in mc: fs[pvar(v)] = e
        p = exact_div(p, Poly({mc: 1}))
    if not p.is_const():
        if len(p.d) <= 60:
            q = poly_sqrt(p)
            if q is not None and not q.is_const():
                k2, f2 = split_factors(q)
                for g, e in f2.items(): fs[g] = fs.get(g, 0) + 2 * e
                return k * k2 * k2, fs
        fs[p] = fs.get(p, 0) + 1
    return k, fs

def radd(a, b):
    if a.n.is_zero(): return b
    if b.n.is_zero(): return a
    nn = a.nn and b.nn
    if a.den == b.den:
        if not a.den: return RF(a.n + b.n, (), nn)
        return mk(a.n + b.n, dict(a.den), nn)
    da = dict(a.den); db = dict(b.den)
    den = dict(da)
    for f, e in db.items():
        if den.get(f, 0) < e: den[f] = e
    na = a.n; nb = b.n
    for f, e in den.items():
        x = e - da.get(f, 0)
        if x: na = na * f.pow(x)
        x = e - db.get(f, 0)
        if x: nb = nb * f.pow(x)
    return mk(na + nb, den, nn)

def rneg(a): return RF(-a.n, a.den)
def rsub(a, b): return radd(a, rneg(b))
def rmul(a, b):
    if a.n.is_zero() or b.n.is_zero(): return RZERO
    nn = (a.nn and b.nn) or (a.n == b.n and a.den == b.den)
    if not a.den and not b.den: return RF(a.n * b.n, (), nn)
    # cross-cancel first
    an, bn = a.n, b.n
    den = dict(a.den)
    for f, e in b.den: den[f] = den.get(f, 0) + e
    for f in list(den):
        while den[f] > 0:
            if len(f.d) * max(len(an.d), len(bn.d)) > 40000: break
            q = exact_div(an, f)
            if q is not None: an = q
            else:
                q = exact_div(bn, f)
                if q is None: break
                bn = q
            den[f] -= 1
        if den[f] == 0: del den[f]
    return mk(an * bn, den, nn)

def rinv(a):
    k, fs = split_factors(a.n)
    n = ONE.scale(Fraction(1) / Fraction(k))
    for f, e in a.den: n = n * f.pow(e)
    return mk(n, dict(fs), a.nn)

def rdiv(a, b):
    if b.is_const():
        return RF(a.n.scale(Fraction(1) / b.const()), a.den, a.nn and b.const() > 0)
    r = rmul(a, rinv(b))
    r.nn = a.nn and b.nn
    return r

def sign_poly(a):
    """polynomial with the same sign as a (denominator factors are nonzero), simplified:
    returns (sign_const, [odd factors], ) as a single primitive poly product"""
    p = a.n
    for f, e in a.den:
        if e % 2 and not (syn_nonneg(f)): p = p * f
    return p

def feval(p, wit):
    """float evaluation; returns (value, magnitude) or None"""
    s = 0.0; mag = 0.0
    try:
        for m, c in p.d.items():
            t = float(c)
            for v, e in m:
                x = wval(v, wit)
                if x is None: return None
                t *= x ** e
            s += t; mag += abs(t)
    except OverflowError:
        return None
    return s, mag

def wval(v, wit):
    x = wit.get(v)
    if x is None:
        vi = VARS[v]
        if vi.kind == 'sqrt':
            r = feval(vi.arg, wit)
            if r is None: return None
            x = math.sqrt(r[0]) if r[0] > 0 else 0.0
        elif vi.kind in ('sin', 'cos'):
            a = rf_feval(vi.arg, wit)
            if a is None: return None
            x = math.sin(a) if vi.kind == 'sin' else math.cos(a)
        elif vi.kind == 'fn':
            name, args = vi.arg
            vals = [rf_feval(a, wit) for a in args]
            if any(t is None for t in vals): return None
            try: x = getattr(math, name)(*vals)
            except Exception: return None
        else: return None
        wit[v] = x
    return float(x)

def rf_feval(a, wit):
    r = feval(a.n, wit)
    if r is None: return None
    x = r[0]
    for f, e in a.den:
        q = feval(f, wit)
        if q is None or q[0] == 0: return None
        x /= q[0] ** e
    return x
