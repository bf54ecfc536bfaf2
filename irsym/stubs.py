"""Models of external functions: LLVM intrinsics, libc/libm, C++ runtime, and the sym_* harness API."""
import math, re
from fractions import Fraction
import z3
import poly, engine
from poly import RF, rconst, rvar, radd, rsub, rmul, rdiv, rneg, RZERO, RONE, sign_poly
from engine import (UNDEF, Ptr, RC, Pieces, Violation, PathEnd, Unsupported, Fork, NULL, sgn, msk, NEG, ZER, POS,
                    F64, F32, RNE, newtok)
from llparse import Ty

TAB = {}
PREFIX = []
def stub(*names):
    def d(f):
        for n in names: TAB[n] = f
        return f
    return d
def lookup(name):
    h = TAB.get(name)
    if h is not None: return h
    for p, f in PREFIX:
        if name.startswith(p):
            TAB[name] = f
            return f
    return None
def prefix(*names):
    def d(f):
        for n in names: PREFIX.append((n, f))
        return f
    return d

def vecwise(f):
    def g(e, a, i):
        if isinstance(a[0], list):
            return [f(e, [x[k] if isinstance(x, list) else x for x in a], i, i.ty.b) for k in range(len(a[0]))]
        return f(e, a, i, i.ty)
    return g

# ---------------------------------------------------------------- no-ops
@prefix('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.stackrestore', 'llvm.prefetch', 'llvm.invariant',
        'llvm.va_', 'llvm.donothing', '_ZNSt8ios_base4InitC', '_ZNSt8ios_base4InitD', 'llvm.sideeffect')
def _nop(e, a, i): return None
@stub('llvm.stacksave.p0', 'llvm.stacksave')
def _ss(e, a, i): return NULL
@prefix('llvm.expect', 'llvm.launder', 'llvm.strip.invariant', 'llvm.ssa.copy', 'llvm.threadlocal.address')
def _id(e, a, i): return a[0]
@prefix('llvm.is.constant')
def _isc(e, a, i): return 0
@prefix('llvm.objectsize')
def _objsize(e, a, i): return msk(-1, i.ty.a)
@stub('llvm.trap', 'llvm.ubsantrap', 'abort', '_ZSt9terminatev', '__cxa_pure_virtual', '__clang_call_terminate', 'exit', '_exit')
def _abort(e, a, i): raise Violation('abort', 'abnormal termination')
@stub('__assert_fail')
def _assert(e, a, i): raise Violation('abort', 'assertion failure: ' + e.cstr(a[0]))

@prefix('llvm.memcpy', 'llvm.memmove')
def _memcpy(e, a, i):
    n = e.concretize(a[2], 64)
    if n == 0: return
    e.memcpy(a[0], a[1], n)
@stub('memcpy', 'memmove')
def _memcpy2(e, a, i):
    n = e.concretize(a[2], 64)
    if n: e.memcpy(a[0], a[1], n)
    return a[0]
def memset(e, p, v, n):
    if n == 0: return
    oid, off = e.addr(p, n, True)
    v = v & 0xff if type(v) is int else v
    if type(v) is int and v == 0:
        pos = off
        end = off + n
        o = e.wobj(oid)
        e.clear(o, off, n)
        while pos < end:
            s = 8 if pos % 8 == 0 and end - pos >= 8 else (4 if pos % 4 == 0 and end - pos >= 4 else 1)
            o.cells[pos] = (s, 0); pos += s
    else:
        for k in range(n): e.wr(oid, off + k, 1, v)
@prefix('llvm.memset')
def _memset(e, a, i): memset(e, a[0], a[1], e.concretize(a[2], 64))
@stub('memset')
def _memset2(e, a, i):
    memset(e, a[0], a[1], e.concretize(a[2], 64)); return a[0]
@stub('memcmp', 'bcmp')
def _memcmp(e, a, i):
    n = e.concretize(a[2], 64)
    if n == 0: return 0
    o1, f1 = e.addr(a[0], n, False); o2, f2 = e.addr(a[1], n, False)
    for k in range(n):
        x = e.rd(o1, f1 + k, 1); y = e.rd(o2, f2 + k, 1)
        if x is UNDEF or y is UNDEF: raise Violation('uninit', 'comparison of uninitialised bytes')
        c = e.icmp('eq', x, y, engine.I8)
        if not e.decide(c):
            return 1 if e.decide(e.icmp('ugt', x, y, engine.I8)) else msk(-1, 32)
    return 0
@stub('strlen')
def _strlen(e, a, i): return len(e.cstr(a[0]))
@stub('strcmp')
def _strcmp(e, a, i):
    x, y = e.cstr(a[0]), e.cstr(a[1])
    return 0 if x == y else (1 if x > y else msk(-1, 32))

def cstr(e, p):
    if isinstance(p, Ptr) and p.o:
        o = e.getobj(p.o); out = []
        off = p.off
        while off < o.size:
            c = o.cells.get(off)
            v = c[1] if c and c[0] == 1 else o.fill
            if v == 0 or v is UNDEF: break
            out.append(chr(v)); off += 1
        return ''.join(out)
    return '?'
engine.Engine.cstr = cstr

# ---------------------------------------------------------------- integer intrinsics
def intrin2(name, f):
    @prefix('llvm.%s.' % name)
    @vecwise
    def g(e, a, i, t): return f(e, a, t)
def minmax(pred):
    def f(e, a, t):
        c = e.icmp(pred, a[0], a[1], t)
        return e.sel(c, a[0], a[1], t)
    return f
intrin2('umin', minmax('ult')); intrin2('umax', minmax('ugt')); intrin2('smin', minmax('slt')); intrin2('smax', minmax('sgt'))
def iabs(e, a, t):
    if a[0] is UNDEF: return UNDEF
    c = e.icmp('slt', a[0], 0, t)
    return e.sel(c, e.ibin('sub', 0, a[0], t.a), a[0], t)
intrin2('abs', iabs)
def usat(e, a, t):
    c = e.icmp('ult', a[0], a[1], t)
    return e.sel(c, 0, e.ibin('sub', a[0], a[1], t.a), t)
intrin2('usub.sat', usat)
def ctlz(e, a, t):
    x = a[0]; w = t.a
    if type(x) is int: return w - x.bit_length()
    if x is UNDEF: return UNDEF
    r = z3.BitVecVal(w, w)
    for k in range(w): r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(w - 1 - k, w), r)
    return e.sv(r)
intrin2('ctlz', ctlz)
def cttz(e, a, t):
    x = a[0]; w = t.a
    if type(x) is int: return w if x == 0 else (x & -x).bit_length() - 1
    if x is UNDEF: return UNDEF
    r = z3.BitVecVal(w, w)
    for k in reversed(range(w)): r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(k, w), r)
    return e.sv(r)
intrin2('cttz', cttz)
def ctpop(e, a, t):
    x = a[0]; w = t.a
    if type(x) is int: return bin(x).count('1')
    if x is UNDEF: return UNDEF
    r = z3.BitVecVal(0, w)
    for k in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(k, k, x))
    return e.sv(r)
intrin2('ctpop', ctpop)
def bswap(e, a, t):
    x = a[0]; n = t.a // 8
    if type(x) is int: return int.from_bytes(x.to_bytes(n, 'little'), 'big')
    if x is UNDEF: return UNDEF
    return e.sv(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, x) for k in range(n)]))
intrin2('bswap', bswap)
def fsh(left):
    def f(e, a, t):
        x, y, s = a; w = t.a
        if UNDEF in (x, y, s): return UNDEF
        if type(s) is int:
            s %= w
            if not left: s = (w - s) % w if s else 0
            if type(x) is int and type(y) is int:
                full = (x << w) | y
                if left: return msk(full >> (w - s), w) if s else x
                return msk(full >> (w - s), w) if s else y
            X = e.tobv(x, w); Y = e.tobv(y, w)
            if s == 0: return x if left else y
            return e.sv(z3.Concat(z3.Extract(w - s - 1, 0, X), z3.Extract(w - 1, w - s, Y)))
        X = e.tobv(x, w); Y = e.tobv(y, w); S = z3.URem(e.tobv(s, w), z3.BitVecVal(w, w))
        F = z3.Concat(X, Y); S2 = z3.ZeroExt(w, S)
        if left: return e.sv(z3.Extract(2 * w - 1, w, F << S2))
        return e.sv(z3.Extract(w - 1, 0, z3.LShR(F, S2)))
    return f
intrin2('fshl', fsh(True)); intrin2('fshr', fsh(False))
def ovf(op, signed):
    def g(e, a, i):
        t = i.ty.a[0]; w = t.a
        x, y = a
        if x is UNDEF or y is UNDEF: return [UNDEF, UNDEF]
        if isinstance(x, Ptr) or isinstance(y, Ptr): return [e.ibin(op, x, y, w), 0]
        r = e.ibin(op, x, y, w)
        if type(x) is int and type(y) is int:
            xx, yy = (sgn(x, w), sgn(y, w)) if signed else (x, y)
            f = xx + yy if op == 'add' else xx - yy if op == 'sub' else xx * yy
            o = not (-(1 << (w - 1)) <= f < (1 << (w - 1))) if signed else not (0 <= f < (1 << w))
            return [r, int(o)]
        k = 2 * w if op == 'mul' else w + 1
        ext = z3.SignExt if signed else z3.ZeroExt
        X = ext(k - w, e.tobv(x, w)); Y = ext(k - w, e.tobv(y, w))
        F = X + Y if op == 'add' else X - Y if op == 'sub' else X * Y
        back = ext(k - w, e.tobv(r, w))
        return [r, e.bsimp(F != back)]
    return g
for _op in ('add', 'sub', 'mul'):
    PREFIX.append(('llvm.u%s.with.overflow' % _op, ovf(_op, False)))
    PREFIX.append(('llvm.s%s.with.overflow' % _op, ovf(_op, True)))

# ---------------------------------------------------------------- float functions
def fl(f):
    """real-mode / fp-mode unary helper"""
    @vecwise
    def g(e, a, i, t):
        if any(x is UNDEF for x in a): return UNDEF
        return f(e, a, t)
    return g
def reg(names, f):
    for n in names: TAB[n] = f
def both(base, f):
    g = fl(f)
    TAB[base] = g; TAB[base + 'f'] = g; TAB[base + 'l'] = g
    PREFIX.append(('llvm.%s.' % base, g))
def iszfp(x): return isinstance(x, z3.FPRef)

def f_sqrt(e, a, t):
    x = a[0]
    if e.mode == 'real': return e.rsqrt(x)
    if isinstance(x, float): return (math.sqrt(x) if x >= 0 else math.nan) if t.k == 'double' else engine.f32r(math.sqrt(x) if x >= 0 else math.nan)
    return z3.fpSqrt(RNE, x)
both('sqrt', f_sqrt)
def f_fabs(e, a, t):
    x = a[0]
    if e.mode == 'real': return e.rabs(x)
    if isinstance(x, float): return abs(x)
    return z3.fpAbs(x)
both('fabs', f_fabs)
def f_fma(e, a, t):
    if e.mode == 'real': return e.rbin('fadd', e.rbin('fmul', a[0], a[1], t), a[2], t)
    if all(isinstance(x, float) for x in a):
        if all(math.isfinite(x) for x in a):
            r = Fraction(a[0]) * Fraction(a[1]) + Fraction(a[2])
            try: v = float(r)
            except OverflowError: v = math.inf if r > 0 else -math.inf
            if r == 0: v = a[0] * a[1] + a[2]
            if t.k == 'float': v = engine.f32r(v)
            return v
        v = a[0] * a[1] + a[2]
        return v
    z = [e.zfp(x, t) for x in a]
    return z3.fpFMA(RNE, *z)
both('fma', f_fma); PREFIX.append(('llvm.fmuladd.', fl(lambda e, a, t: e.fbin('fadd', e.fbin('fmul', a[0], a[1], t), a[2], t))))
def rounder(kind, zr, py):
    def f(e, a, t):
        x = a[0]
        if e.mode == 'real': return e.rround(kind, x)
        if isinstance(x, float): return x if not math.isfinite(x) else math.copysign(float(py(x)), x)
        return z3.fpRoundToIntegral(zr, x)
    both(kind, f)
rounder('floor', z3.RTN(), math.floor); rounder('ceil', z3.RTP(), math.ceil); rounder('trunc', z3.RTZ(), math.trunc)
rounder('round', z3.RNA(), lambda x: math.floor(abs(x) + 0.5)); rounder('rint', RNE, round); rounder('nearbyint', RNE, round)
def f_min(which):
    def f(e, a, t):
        x, y = a
        if e.mode == 'real':
            if isinstance(x, float) and x != x: return y
            if isinstance(y, float) and y != y: return x
        c = e.fcmp('olt' if which == 'min' else 'ogt', x, y, t)
        if e.mode == 'real': return x if e.decide(c) else y
        if isinstance(x, float) and isinstance(y, float):
            if x != x: return y
            if y != y: return x
            return x if (type(c) is int and c) else y
        X, Y = e.zfp(x, t), e.zfp(y, t)
        c = z3.BoolVal(bool(c)) if type(c) is int else c
        return z3.If(z3.fpIsNaN(X), Y, z3.If(z3.fpIsNaN(Y), X, z3.If(c, X, Y)))
    return f
both('fmin', f_min('min')); both('fmax', f_min('max'))
PREFIX.append(('llvm.minnum.', fl(f_min('min')))); PREFIX.append(('llvm.maxnum.', fl(f_min('max'))))
def f_copysign(e, a, t):
    x, y = a
    if e.mode == 'real':
        if isinstance(y, float): s = math.copysign(1, y)
        else: s = -1 if e.decide_rc(RC(sign_poly(y), NEG)) else 1
        m = e.rabs(x)
        return m if s > 0 else (-m if isinstance(m, float) else rneg(m))
    if isinstance(x, float) and isinstance(y, float): return math.copysign(x, y)
    X, Y = e.zfp(x, t), e.zfp(y, t)
    A = z3.fpAbs(X)
    return z3.If(z3.fpIsNegative(Y), z3.fpNeg(A), A)
both('copysign', f_copysign)
def f_signbit(e, a, t):
    x = a[0]
    if isinstance(x, float): return int(math.copysign(1, x) < 0)
    if isinstance(x, RF): return int(e.decide_rc(RC(sign_poly(x), NEG)))
    return e.bsimp(z3.fpIsNegative(x))
TAB['__signbit'] = TAB['__signbitf'] = lambda e, a, i: (lambda r: r if type(r) is int else e.tobv(r, 32))(f_signbit(e, a, None))
@prefix('llvm.is.fpclass')
def _fpclass(e, a, i):
    x, m = a
    if x is UNDEF: return UNDEF
    if isinstance(x, RF):
        # finite: zero / normal of either sign (NaN and inf are Python floats in real mode)
        if not (m & 0x3fc): return 0
        if (m & 0x3fc) == 0x3fc: return 1
        if (m & 0x3c) == 0x3c and not (m & 0x3c0): return int(e.decide_rc(RC(sign_poly(x), NEG)))
        if (m & 0x60) == 0x60 and not (m & 0x39c): return int(e.decide_rc(RC(x.n, ZER)))
        raise Unsupported('fpclass %x' % m)
    if isinstance(x, float):
        b = 0
        if x != x: b = 3
        elif math.isinf(x): b = 4 if x < 0 else 0x200
        elif x == 0: b = 0x20 if math.copysign(1, x) < 0 else 0x40
        else: b = 8 if x < 0 else 0x100
        return int(bool(b & m))
    cs = []
    neg = z3.fpIsNegative(x); pos = z3.fpIsPositive(x)
    for bit, c in ((3, z3.fpIsNaN(x)), (4, z3.And(z3.fpIsInf(x), neg)), (8, z3.And(z3.fpIsNormal(x), neg)), (0x10, z3.And(z3.fpIsSubnormal(x), neg)),
                   (0x20, z3.And(z3.fpIsZero(x), neg)), (0x40, z3.And(z3.fpIsZero(x), pos)), (0x80, z3.And(z3.fpIsSubnormal(x), pos)),
                   (0x100, z3.And(z3.fpIsNormal(x), pos)), (0x200, z3.And(z3.fpIsInf(x), pos))):
        if m & bit: cs.append(c)
    return e.bsimp(z3.Or(*cs)) if cs else 0

def f_trig(which):
    def f(e, a, t):
        if e.mode != 'real':
            if isinstance(a[0], float): return math.sin(a[0]) if which == 'sin' else math.cos(a[0])
            return ufp(e, which, a, t)
        return e.trig(which, a[0])
    return f
def ufp(e, name, a, t):
    """uninterpreted float function"""
    s = F64 if t.k == 'double' else F32
    z = [e.zfp(x, t) for x in a]
    fn = z3.Function('uf_%s_%s' % (name, t.k), *([s] * (len(a) + 1)))
    return fn(*z)
both('sin', f_trig('sin')); both('cos', f_trig('cos'))
def f_tan(e, a, t):
    if e.mode != 'real': return math.tan(a[0]) if isinstance(a[0], float) else ufp(e, 'tan', a, t)
    return e.rbin('fdiv', e.trig('sin', a[0]), e.trig('cos', a[0]), t)
both('tan', f_tan)
@stub('sincos', 'sincosf')
def _sincos(e, a, i):
    s = e.trig('sin', a[0]); c = e.trig('cos', a[0])
    t = engine.DOUBLE if i.a[0][1] == 'sincos' else engine.FLOAT
    e.store(a[1], s, t); e.store(a[2], c, t)

def fn1(name, consts=None, pyf=None):
    def f(e, a, t):
        x = a[0]
        if isinstance(x, float):
            try: return pyf(x)
            except (ValueError, OverflowError): return math.nan
        if e.mode != 'real': return ufp(e, name, a, t)
        if x.is_const():
            c = x.const()
            if consts and c in consts: return rconst(poly.norm_c(Fraction(consts[c])))
        inv = INVERSE.get(name)
        if inv and not x.den and len(x.n.d) == 1:
            (m, c), = x.n.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                vi = poly.VARS[m[0][0]]
                if vi.kind == 'fn' and vi.arg[0] == inv: return vi.arg[1][0]
        return e.opaque(name, x)
    both(name, f)
INVERSE = {'log': 'exp', 'exp': 'log'}
fn1('exp', {0: 1}, math.exp); fn1('log', {1: 0}, math.log); fn1('exp2', {0: 1}, lambda x: 2 ** x); fn1('log2', {1: 0}, math.log2)
fn1('asin', {0: 0, 1: math.pi / 2, -1: -math.pi / 2}, math.asin); fn1('acos', {1: 0, 0: math.pi / 2, -1: math.pi}, math.acos); fn1('atan', {0: 0}, math.atan); fn1('log10', {1: 0}, math.log10)
fn1('sinh', {0: 0}, math.sinh); fn1('cosh', {0: 1}, math.cosh); fn1('tanh', {0: 0}, math.tanh); fn1('cbrt', {0: 0, 1: 1, -1: -1}, None); fn1('tgamma', {1:1}, math.gamma)
fn1('log1p', {0: 0}, math.log1p); fn1('expm1', {0: 0}, math.expm1); fn1('asinh', {0: 0}, math.asinh); fn1('acosh', {1: 0}, math.acosh); fn1('atanh', {0: 0}, math.atanh)
def f_atan2(e, a, t):
    if e.mode != 'real': return math.atan2(*a) if all(isinstance(x, float) for x in a) else ufp(e, 'atan2', a, t)
    y, x = a
    if isinstance(x, RF) and isinstance(y, RF) and y.n.is_zero() and x.is_const() and x.const() > 0: return RZERO
    if isinstance(x, RF) and isinstance(y, RF) and y.is_const() and x.is_const():
        if y.n.is_zero(): return rconst(poly.norm_c(Fraction(math.pi)))
        if x.n.is_zero(): return rconst(poly.norm_c(Fraction(math.pi / 2 if y.const() > 0 else -math.pi / 2)))
    return e.opaque('atan2', *a)
both('atan2', f_atan2)
def f_pow(e, a, t):
    x, y = a
    if e.mode != 'real':
        return math.pow(x, y) if isinstance(x, float) and isinstance(y, float) else ufp(e, 'pow', a, t)
    if isinstance(y, RF) and y.is_const() and isinstance(x, RF):
        c = Fraction(y.const())
        if c.denominator == 1 and abs(c) <= 24:
            r = RONE
            for _ in range(abs(int(c))): r = e.rbin('fmul', r, x, t)
            return r if c >= 0 else e.rbin('fdiv', RONE, r, t)
        if c.denominator == 2 and abs(c) <= 12:
            s = e.rsqrt(x); r = RONE
            for _ in range(abs(c.numerator)): r = e.rbin('fmul', r, s, t)
            return r if c >= 0 else e.rbin('fdiv', RONE, r, t)
        if abs(float(c) - 1 / 3) < 1e-15:      # the double nearest to one third stands for the exact root
            if x.is_const() and x.const() in (0, 1): return x
            return e.opaque('cbrt', x) if x.nn or e.decide_rc(RC(sign_poly(x), POS | ZER)) else math.nan
    return e.opaque('pow', x, y)
both('pow', f_pow)
@prefix('llvm.powi.')
def _powi(e, a, i):
    n = sgn(e.concretize(a[1], 32), 32); r = RONE if e.mode == 'real' else 1.0
    for _ in range(abs(n)): r = e.fbin('fmul', r, a[0], i.ty)
    return r if n >= 0 else e.fbin('fdiv', RONE if e.mode == 'real' else 1.0, r, i.ty)
@stub('ldexp', 'ldexpf', 'scalbn', 'scalbnf')
def _ldexp(e, a, i):
    n = sgn(e.concretize(a[1], 32), 32)
    if e.mode == 'real': return e.rbin('fmul', a[0], rconst(Fraction(2) ** n), i.ty)
    if isinstance(a[0], float): return math.ldexp(a[0], n)
    return e.fbin('fmul', a[0], 2.0 ** n, i.ty)
PREFIX.append(('llvm.ldexp', _ldexp))
def f_fmod(e, a, t):
    x, y = a
    if e.mode != 'real':
        if isinstance(x, float) and isinstance(y, float): return e.cfl('frem', x, y)
        raise Unsupported('fmod fp')
    q = e.rbin('fdiv', x, y, t)
    k = e.rround('trunc', q)
    return e.rbin('fsub', x, e.rbin('fmul', k, y, t), t)
both('fmod', f_fmod)
def f_fdim(e, a, t):
    if e.mode != 'real': return ufp(e, 'fdim', a, t)
    d = e.rbin('fsub', a[0], a[1], t)
    if not isinstance(d, RF): return d
    if d.is_const(): return d if d.const() > 0 else RZERO
    return d if e.decide_rc(RC(sign_poly(d), POS)) else RZERO
both('fdim', f_fdim)
def f_hypot(e, a, t):
    if e.mode != 'real': return ufp(e, 'hypot', a, t)
    s = radd(rmul(a[0], a[0]), rmul(a[1], a[1]))
    return e.rsqrt(s)
both('hypot', f_hypot)
@stub('modf', 'modff')
def _modf(e, a, i):
    k = e.rround('trunc', a[0]) if e.mode == 'real' else f_trunc_fp(a[0])
    e.store(a[1], k, i.ty)
    return e.fbin('fsub', a[0], k, i.ty)
def f_trunc_fp(x): return float(math.trunc(x)) if isinstance(x, float) else z3.fpRoundToIntegral(z3.RTZ(), x)
@prefix('llvm.lround', 'llvm.llround')
def _lround(e, a, i):
    r = e.rround('round', a[0]); return msk(int(r.const()), i.ty.a)
TAB['lround'] = TAB['llround'] = TAB['lroundf'] = _lround
@stub('nextafter', 'nextafterf')
def _nextafter(e, a, i):
    if all(isinstance(x, float) for x in a): return math.nextafter(*a)
    raise Unsupported('nextafter')

# complex helpers emitted by clang
@stub('__muldc3', '__mulsc3')
def _muldc3(e, a, i):
    p, q, r, s = a; t = i.ty.a[0] if i.ty.k == 'struct' else engine.DOUBLE
    re_ = e.fbin('fsub', e.fbin('fmul', p, r, t), e.fbin('fmul', q, s, t), t)
    im = e.fbin('fadd', e.fbin('fmul', p, s, t), e.fbin('fmul', q, r, t), t)
    return [re_, im]
@stub('__divdc3', '__divsc3')
def _divdc3(e, a, i):
    p, q, r, s = a; t = i.ty.a[0] if i.ty.k == 'struct' else engine.DOUBLE
    F = lambda o, x, y: e.fbin(o, x, y, t)
    d = F('fadd', F('fmul', r, r), F('fmul', s, s))
    return [F('fdiv', F('fadd', F('fmul', p, r), F('fmul', q, s)), d), F('fdiv', F('fsub', F('fmul', q, r), F('fmul', p, s)), d)]

# ---------------------------------------------------------------- memory management
def newf(kind):
    def f(e, a, i):
        n = e.concretize(a[0], 64)
        if n > (1 << 24):
            if kind != 'malloc': return throw_std(e, 'bad_alloc')
            return NULL
        e.st.live += 1
        return e.alloc(n, kind)
    return f
TAB['_Znwm'] = TAB['_ZnwmSt11align_val_t'] = TAB['_ZnwmRKSt9nothrow_t'] = newf('new'); TAB['_Znam'] = TAB['_ZnamSt11align_val_t'] = TAB['_ZnamRKSt9nothrow_t'] = newf('new[]'); TAB['malloc'] = newf('malloc')
@stub('calloc')
def _calloc(e, a, i):
    n = e.concretize(a[0], 64) * e.concretize(a[1], 64)
    e.st.live += 1
    return e.alloc(n, 'malloc', '', 0)
@stub('aligned_alloc')
def _aalloc(e, a, i):
    e.st.live += 1; return e.alloc(e.concretize(a[1], 64), 'malloc')
@stub('posix_memalign')
def _pmemalign(e, a, i):
    n = e.concretize(a[2], 64)
    e.st.live += 1
    e.store(a[0], e.alloc(n, 'malloc'), engine.PTR); return 0
@stub('realloc')
def _realloc(e, a, i):
    n = e.concretize(a[1], 64); q = e.alloc(n, 'malloc')
    p = a[0]
    if p != NULL:
        o = e.getobj(p.o)
        e.memcpy(q, p, min(n, o.size)); e.wobj(p.o).freed = True
    else: e.st.live += 1
    return q
def delf(kind):
    def f(e, a, i):
        p = a[0]
        if p is UNDEF: raise Violation('uninit', 'freeing an uninitialised pointer')
        if p == NULL: return
        o = e.getobj(p.o)
        if p.o == 0 or o.kind not in ('new', 'new[]', 'malloc') : raise Violation('memory', 'freeing memory that was not allocated (%s)' % o.kind)
        if p.off != 0: raise Violation('memory', 'freeing an interior pointer')
        if o.freed: raise Violation('memory', 'double free')
        if o.kind != kind: raise Violation('memory', 'mismatched deallocation (%s vs %s)' % (o.kind, kind))
        o = e.wobj(p.o)
        o.freed = True; o.cells = {}
        e.st.live -= 1
    return f
for n in ('_ZdlPv', '_ZdlPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t'): TAB[n] = delf('new')
for n in ('_ZdaPv', '_ZdaPvm', '_ZdaPvSt11align_val_t', '_ZdaPvmSt11align_val_t'): TAB[n] = delf('new[]')
TAB['free'] = delf('malloc')

# ---------------------------------------------------------------- exceptions
@stub('__cxa_allocate_exception')
def _alloc_exc(e, a, i): return e.alloc(e.concretize(a[0], 64), 'exc')
@stub('__cxa_throw')
def _cxa_throw(e, a, i): e.throw(a[0], a[1])
@stub('__cxa_begin_catch', '__cxa_get_exception_ptr')
def _begin(e, a, i):
    if i.a[0][1] == '__cxa_begin_catch': e.st.caught = e.st.caught + [e.st.exc]
    return a[0]
@stub('__cxa_end_catch')
def _endc(e, a, i):
    if e.st.caught: e.st.caught = e.st.caught[:-1]
@stub('__cxa_rethrow')
def _rethrow(e, a, i):
    x = e.st.caught[-1]
    e.throw(x['obj'], x['ti'])
@stub('llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0')
def _etid(e, a, i): return e.typeid(a[0])
TAB['__cxa_free_exception'] = _nop
def throw_std(e, nm):
    ti = '_ZTISt%d%s' % (len(nm), nm)
    if ti not in e.m.globals:
        from llparse import Global
        g = Global(ti); g.external = True; g.const = True; g.ty = engine.PTR
        e.m.globals[ti] = g
    e.throw(e.alloc(16, 'exc'), e.gptr(ti))
for k, nm in (('_ZSt20__throw_length_errorPKc', 'length_error'), ('_ZSt17__throw_bad_allocv', 'bad_alloc'), ('_ZSt28__throw_bad_array_new_lengthv', 'bad_array_new_length'),
              ('_ZSt24__throw_out_of_range_fmtPKcz', 'out_of_range'), ('_ZSt20__throw_out_of_rangePKc', 'out_of_range'), ('_ZSt19__throw_logic_errorPKc', 'logic_error'),
              ('_ZSt25__throw_bad_function_callv', 'bad_function_call'), ('_ZSt24__throw_invalid_argumentPKc', 'invalid_argument'), ('__cxa_throw_bad_array_new_length', 'bad_array_new_length'),
              ('_ZSt27__throw_bad_optional_accessv','bad_optional_access'), ('_ZSt26__throw_bad_variant_accessPKc', 'bad_variant_access')):
    TAB[k] = (lambda nm: lambda e, a, i: throw_std(e, nm))(nm)
@prefix('_ZNSt13runtime_errorC', '_ZNSt13runtime_errorD', '_ZNSt9exceptionC', '_ZNSt9exceptionD', '_ZNSt11logic_errorC', '_ZNSt11logic_errorD', '_ZNSt12out_of_rangeC', '_ZNSt12out_of_rangeD',
        '_ZNSt16invalid_argumentC', '_ZNSt16invalid_argumentD', '_ZNSt12domain_errorC', '_ZNSt12domain_errorD', '_ZNSt12length_errorC', '_ZNSt12length_errorD', '_ZNSt9bad_allocD', '_ZNSt11range_errorC', '_ZNSt11range_errorD', '_ZNSt14overflow_errorC', '_ZNSt14overflow_errorD')
def _excctor(e, a, i): return None
@stub('__cxa_guard_acquire')
def _guard(e, a, i):
    v = e.load(a[0], engine.I8)
    return 1 if v == 0 or v is UNDEF else 0
@stub('__cxa_guard_release')
def _guardr(e, a, i): e.store(a[0], 1, engine.I8)
TAB['__cxa_guard_abort'] = _nop
TAB['__cxa_atexit'] = lambda e, a, i: 0
TAB['atexit'] = lambda e, a, i: 0
TAB['_ZNSt6chrono3_V212system_clock3nowEv'] = TAB['_ZNSt6chrono3_V212steady_clock3nowEv'] = TAB['time'] = TAB['clock'] = lambda e, a, i: fresh_bv(e, 'clock', 64)
TAB['gettimeofday'] = lambda e, a, i: (e.store(Ptr(a[0].o, a[0].off), fresh_bv(e, 'sec', 64), engine.I64), e.store(Ptr(a[0].o, a[0].off + 8), fresh_bv(e, 'usec', 64), engine.I64), 0)[2]
def fresh_bv(e, name, w):
    k = e.st.aux.get('nfresh', 0); e.st.aux['nfresh'] = k + 1
    return z3.BitVec('env%d_%s' % (k, name), w)

# ---------------------------------------------------------------- harness API
def add_input(e, kind, val): e.st.inputs.append((kind, val))
def bvin(w, kind):
    def f(e, a, i):
        name = e.cstr(a[-1]); idx = len(e.st.inputs)
        v = z3.BitVec('in%d_%s' % (idx, name), w)
        add_input(e, kind, v)
        return v
    return f
TAB['sym_u64'] = TAB['sym_i64'] = bvin(64, 'u64'); TAB['sym_u32'] = TAB['sym_i32'] = bvin(32, 'u32'); TAB['sym_u8'] = bvin(8, 'u8'); TAB['sym_u16'] = bvin(16, 'u16')
@stub('sym_bool')
def _sbool(e, a, i):
    idx = len(e.st.inputs)
    v = z3.BitVec('in%d_%s' % (idx, e.cstr(a[0])), 8)
    e.st.pc.append(z3.ULE(v, 1)); 
    if e.st.bwit is not None: e.st.bwit = None
    add_input(e, 'u8', v)
    return e.bsimp(z3.Extract(0, 0, v) == 1)
@stub('sym_range')
def _srange(e, a, i):
    lo, hi = sgn(a[0], 64), sgn(a[1], 64)
    idx = len(e.st.inputs)
    v = z3.BitVec('in%d_%s' % (idx, e.cstr(a[2])), 64)
    add_input(e, 'u64', v)
    if lo > hi: raise PathEnd('assume')
    if lo == hi:
        e.st.pc.append(v == lo); e.st.bwit = None; return msk(lo, 64)
    e.st.pc.append(v >= lo); e.st.pc.append(v <= hi); e.st.bwit = None
    return v
@stub('sym_choose')
def _schoose(e, a, i):
    n = a[0]
    name = e.cstr(a[1])
    fx = e.opts.get('fix')
    if fx and name in fx and not e.st.aux.get(('fixed', name)):   # only the first choice of that name on a path is the one the run was split on
        k = fx[name]
        if n > e.opts.get('fixn', {}).get(name, n): raise Exception('split of %s covers fewer cases than the %d it has' % (name, n))
        e.st.aux[('fixed', name)] = True
        if k >= n: raise PathEnd('assume')
        add_input(e, 'u64', k); return k
    key = ('choose', len(e.st.inputs))
    if key in e.st.aux:
        k = e.st.aux[key]
        add_input(e, 'u64', k)
        return k
    if n == 1:
        add_input(e, 'u64', 0); return 0
    if n == 0: raise PathEnd('assume')
    def mk(k):
        def f(s): s.aux[key] = k
        return f
    raise Fork([mk(k) for k in reversed(range(n))])
@stub('sym_concretize')
def _sconc(e, a, i): return e.concretize(a[0], 64)
def fin(t):
    def f(e, a, i):
        name = e.cstr(a[0]); idx = len(e.st.inputs)
        if e.mode == 'real':
            key = ('in', idx, name)
            v = poly._sqrt_cache.get(key)
            if v is None:
                v = poly.new_var('%s_%d' % (name, idx), 'in').id; poly._sqrt_cache[key] = v
            if v not in e.st.wit:
                e.st.wit = dict(e.st.wit)
                e.st.wit[v] = Fraction(e.rng.randint(-12, 12), 4)
            add_input(e, 'f64' if t.k == 'double' else 'f32', v)
            return rvar(v)
        w = 64 if t.k == 'double' else 32
        b = z3.BitVec('in%d_%s' % (idx, name), w)
        add_input(e, 'b%d' % w, b)
        return z3.fpBVToFP(b, F64 if w == 64 else F32)
    return f
TAB['sym_f64'] = fin(engine.DOUBLE); TAB['sym_f32'] = fin(engine.FLOAT)

def bvassume(e, c):
    c = z3.simplify(c if isinstance(c, z3.BoolRef) else c != 0)
    if z3.is_true(c): return
    if z3.is_false(c): raise PathEnd('assume')
    st = e.st
    k = st.known.get(c.get_id())
    if k is not None:
        if k[1]: return
        raise PathEnd('assume')
    if e.beval(c) is not True:
        r, m = e.bv_q([c], e.cond_timeout, True)
        if r == 'unsat': raise PathEnd('assume')
        st.bwit = m
    st.pc.append(c); st.known[c.get_id()] = (c, True)
def rcassume(e, rc):
    p, mask = rc.p, rc.mask
    if p.is_const():
        if not e.decide_rc(rc): raise PathEnd('assume')
        return
    p, sg = e.norm(p)
    if sg < 0: mask = engine.flip(mask)
    al = e.sign_allowed(p); A = al & mask
    if A == 0: raise PathEnd('assume')
    if A == al: return
    if not (e.wsign(p, e.st.wit) & A):
        r, m = e.real_q([(p, A)], e.cond_timeout, True)
        if r == 'unsat': raise PathEnd('assume')
        e.st.wit = e.upd_wit(m, None) if m is not None else {}
    e.st.signs[p] = A
@stub('sym_assume')
def _assume(e, a, i):
    c = a[0]
    if c is UNDEF: raise Violation('uninit', 'assumption depends on uninitialised value')
    if type(c) is int:
        if not c & 1: raise PathEnd('assume')
        return
    if isinstance(c, RC): return rcassume(e, c)
    bvassume(e, c)
@stub('sym_reach')
def _reach(e, a, i):
    n = e.cstr(a[0])
    if n not in e.st.reached: e.st.reached = e.st.reached + (n,)
@stub('sym_live')
def _live(e, a, i): return e.st.live

@stub('sym_check')
def _check(e, a, i):
    msg = e.cstr(a[1])
    c = a[0]
    e.stats.checks += 1
    if c is UNDEF: raise Violation('uninit', 'checked value is uninitialised: ' + msg)
    if type(c) is int:
        if c & 1:
            e.stats.checks_proved += 1; e.stats.trivial += 1; return
        raise Violation('check', msg)
    if isinstance(c, RC): return check_rc(e, c, msg)
    c = z3.simplify(c if isinstance(c, z3.BoolRef) else c != 0)
    if z3.is_true(c): e.stats.checks_proved += 1; e.stats.trivial += 1; return
    if z3.is_false(c): raise Violation('check', msg)
    n = z3.Not(c)
    r, m = e.bv_q([n], e.check_timeout, True)
    if r == 'unsat': e.stats.checks_proved += 1
    elif r == 'sat':
        e.candidate('check', msg, [n], [], i)
    else: e.undecided(msg, None, [n])
    bvassume(e, c)

def check_rc(e, rc, msg):
    p, mask = rc.p, rc.mask
    if p.is_const():
        if e.decide_rc(rc): e.stats.checks_proved += 1; e.stats.trivial += 1; return
        raise Violation('check', msg)
    p, sg = e.norm(p)
    if sg < 0: mask = engine.flip(mask)
    al = e.sign_allowed(p)
    bad = al & ~mask & 7
    if bad == 0: e.stats.checks_proved += 1; e.stats.trivial += 1; return
    if al & mask == 0: raise Violation('check', msg)
    r, m = e.real_q([(p, bad)], e.check_timeout, True)
    if r == 'unsat':
        e.stats.checks_proved += 1
    elif r == 'sat':
        e.candidate('check', msg, [], [(p, bad)], e.cur())
    else:
        e.undecided(msg, [(p, bad)])
    if al & mask == 0: raise PathEnd('checked-false')
    e.st.signs[p] = al & mask

@stub('sym_check_eq', 'sym_check_eqf')
def _check_eq(e, a, i):
    x, y, msg = a[0], a[1], e.cstr(a[2])
    e.stats.checks += 1
    if x is UNDEF or y is UNDEF: raise Violation('uninit', 'checked value is uninitialised: ' + msg)
    if e.mode != 'real':
        c = e.fcmp('oeq', x, y, engine.DOUBLE)
        if type(c) is int:
            if c: e.stats.checks_proved += 1; return
            raise Violation('check', msg)
        e.stats.checks -= 1
        return _check(e, [c, a[2]], i)
    if isinstance(x, float) or isinstance(y, float):
        if isinstance(x, float) and isinstance(y, float) and x == y:
            e.stats.checks_proved += 1; e.stats.trivial += 1; return
        raise Violation('check', msg)
    d = rsub(x, y)
    if d.n.is_zero():
        e.confirm_identity(x, y)
        e.stats.checks_proved += 1; return
    if d.is_const(): raise Violation('check', msg)
    check_rc(e, RC(d.n, ZER), msg)
@stub('sym_check_le')
def _check_le(e, a, i):
    x, y, msg = a[0], a[1], e.cstr(a[2])
    e.stats.checks += 1
    if x is UNDEF or y is UNDEF: raise Violation('uninit', 'checked value is uninitialised: ' + msg)
    c = e.fcmp('ole', x, y, engine.DOUBLE)
    e.stats.checks -= 1
    return _check(e, [c, a[2]], i)
@stub('sym_out')
def _out(e, a, i): e.st.outs = e.st.outs + (a[0],)
