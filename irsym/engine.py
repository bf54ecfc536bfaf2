"""Symbolic executor for LLVM IR.  Integers: bit-vectors (z3). Floats: exact reals ('real' mode) or
IEEE-754 ('fp' mode). Objects are byte-addressed with per-cell values; every access is bounds/lifetime checked."""
import math, time, struct, random
from fractions import Fraction
import z3
import llparse
from llparse import Ty, I1, I8, I32, I64, PTR, DOUBLE, FLOAT
import poly
from poly import (Poly, RF, rconst, rvar, radd, rsub, rmul, rdiv, rneg, rinv, RZERO, RONE, sign_poly, syn_nonneg)

NEG, ZER, POS = 1, 2, 4

class Unsupported(Exception): pass
class PathEnd(Exception):
    def __init__(s, why): s.why = why
class Violation(Exception):
    def __init__(s, kind, msg, cond=None): s.kind = kind; s.msg = msg; s.cond = cond
class Fork(Exception):
    def __init__(s, alts): s.alts = alts     # list of functions applied to child states

class Undef:
    def __repr__(s): return 'UNDEF'
UNDEF = Undef()

class Ptr:
    __slots__ = ('o', 'off')
    def __init__(s, o, off): s.o = o; s.off = off
    def __repr__(s): return 'Ptr(%s,%s)' % (s.o, s.off)
    def __eq__(s, t): return isinstance(t, Ptr) and s.o == t.o and type(s.off) is int and type(t.off) is int and s.off == t.off
    def __hash__(s): return hash((s.o, s.off if type(s.off) is int else s.off.get_id()))
NULL = Ptr(0, 0)

class RC:
    """real condition: sign(p) in mask"""
    __slots__ = ('p', 'mask')
    def __init__(s, p, mask): s.p = p; s.mask = mask

class Pieces:
    __slots__ = ('parts', 'size')
    def __init__(s, parts, size): s.parts = parts; s.size = size   # [(off,size,val)]

class Obj:
    __slots__ = ('size', 'cells', 'freed', 'kind', 'name', 'owner', 'fill')
    def __init__(s, size, kind, name, owner, fill=UNDEF):
        s.size = size; s.cells = {}; s.freed = False; s.kind = kind; s.name = name; s.owner = owner; s.fill = fill
    def copy(s, owner):
        n = Obj(s.size, s.kind, s.name, owner, s.fill); n.cells = dict(s.cells); n.freed = s.freed
        return n

class Frame:
    __slots__ = ('f', 'blk', 'idx', 'prev', 'regs', 'allocas', 'call', 'insts')
    def copy(s):
        n = Frame(); n.f = s.f; n.blk = s.blk; n.idx = s.idx; n.prev = s.prev; n.regs = dict(s.regs)
        n.allocas = list(s.allocas); n.call = s.call; n.insts = s.insts
        return n

_tok = [0]
def newtok():
    _tok[0] += 1; return _tok[0]

class State:
    __slots__ = ('frames', 'mem', 'tok', 'pc', 'signs', 'wit', 'bwit', 'inputs', 'exc', 'uncaught', 'caught', 'known', 'depth', 'nsteps', 'live', 'reached', 'aux', 'trace', 'outs', 'lemmas', 'assumed_unknown', 'visits', 'subst', 'sqh')
    def __init__(s):
        s.frames = []; s.mem = {}; s.tok = newtok(); s.pc = []; s.signs = {}; s.wit = {}; s.bwit = None
        s.inputs = []; s.exc = None; s.caught = []; s.known = {}; s.depth = 0; s.nsteps = 0; s.live = 0
        s.reached = (); s.aux = {}; s.trace = (); s.outs = (); s.lemmas = (); s.assumed_unknown = 0; s.visits = 0; s.subst = {}; s.sqh = ()
    def fork(s):
        n = State.__new__(State)
        n.frames = [f.copy() for f in s.frames]
        n.mem = dict(s.mem); s.tok = newtok(); n.tok = newtok()
        n.pc = list(s.pc); n.signs = dict(s.signs); n.wit = s.wit; n.bwit = s.bwit
        n.inputs = list(s.inputs); n.exc = s.exc; n.caught = list(s.caught); n.known = dict(s.known)
        n.depth = s.depth + 1; n.nsteps = s.nsteps; n.live = s.live; n.reached = s.reached; n.aux = dict(s.aux)
        n.trace = s.trace; n.outs = s.outs; n.lemmas = s.lemmas; n.assumed_unknown = s.assumed_unknown; n.visits = s.visits; n.subst = s.subst; n.sqh = s.sqh
        return n

def is_z(v): return isinstance(v, z3.ExprRef)

def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v
def msk(v, w): return v & ((1 << w) - 1)

F64 = z3.Float64(); F32 = z3.Float32(); RNE = z3.RNE()

def f32r(x):
    try: return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError: return math.inf if x > 0 else -math.inf

DBL_MAX = 1.7976931348623157e308
BIG = 3.0e38

class Stats:
    def __init__(s):
        s.queries = 0; s.qtime = 0.0; s.unknown = 0; s.sat = 0; s.unsat = 0; s.paths = 0; s.pruned = 0
        s.checks = 0; s.checks_proved = 0; s.undecided = []; s.insts = 0; s.funcs = {}; s.reach = {}; s.cut = {}
        s.assumed = 0; s.trivial = 0

PI_D_F = math.pi
PI_D = Fraction(math.pi)
def _ax_atan2(e, z, a):
    y = e.zrf_sign(a[0]); x = e.zrf_sign(a[1]); pi = z3.RealVal(str(PI_D)); h = z3.RealVal(str(PI_D / 2))
    return [z >= -pi, z <= pi, z3.Implies(y > 0, z > 0), z3.Implies(y < 0, z < 0), z3.Implies(z3.And(y == 0, x >= 0), z == 0), z3.Implies(z3.And(y == 0, x < 0), z == pi),
            z3.Implies(x > 0, z3.And(z < h, z > -h)), z3.Implies(z3.And(x < 0, y > 0), z > h), z3.Implies(z3.And(x < 0, y < 0), z < -h)]
FN_AXIOMS = {
    'exp': lambda e, z, a: [z > 0, z3.Implies(e.zrf_sign(a[0]) > 0, z > 1), z3.Implies(e.zrf_sign(a[0]) < 0, z < 1)],
    'log': lambda e, z, a: [z3.Implies(e.zrf_cmp(a[0], 1) > 0, z > 0), z3.Implies(e.zrf_cmp(a[0], 1) == 0, z == 0), z3.Implies(z3.And(e.zrf_cmp(a[0], 1) < 0, e.zrf_sign(a[0]) > 0), z < 0)],
    'acos': lambda e, z, a: [z >= 0, z <= z3.RealVal(str(PI_D)), (z > 0) == (e.zrf_cmp(a[0], 1) < 0), (z < z3.RealVal(str(PI_D))) == (e.zrf_cmp(a[0], -1) > 0), z3.Implies(e.zrf_sign(a[0]) > 0, z < z3.RealVal(str(PI_D / 2))), z3.Implies(e.zrf_sign(a[0]) < 0, z > z3.RealVal(str(PI_D / 2)))],
    'asin': lambda e, z, a: [z >= -z3.RealVal(str(PI_D / 2)), z <= z3.RealVal(str(PI_D / 2)), z3.Implies(e.zrf_sign(a[0]) > 0, z > 0), z3.Implies(e.zrf_sign(a[0]) < 0, z < 0)],
    'atan': lambda e, z, a: [z > -z3.RealVal(str(PI_D / 2)), z < z3.RealVal(str(PI_D / 2)), z3.Implies(e.zrf_sign(a[0]) > 0, z > 0), z3.Implies(e.zrf_sign(a[0]) < 0, z < 0)],
    'atan2': _ax_atan2,
    'cbrt': lambda e, z, a: [z * z * z * e.zden(a[0]) == e.zpoly(a[0].n)],
    'pow': lambda e, z, a: [z3.Implies(e.zrf_sign(a[0]) > 0, z > 0)],
}
class Engine:
    def __init__(self, mod, mode='real', opts=None):
        self.m = mod; self.mode = mode; self.opts = opts or {}
        self.st = None
        self.stats = Stats()
        self.cond_timeout = self.opts.get('cond_timeout', 400)
        self.check_timeout = self.opts.get('check_timeout', 8000)
        self.gobj = {}        # global name -> obj id
        self.fobj = {}        # func name -> obj id
        self.objfn = {}       # obj id -> func name
        self.nobj = 1
        self.base_mem = {}
        self.violations = []
        self.cc = {}
        self.deadline = None
        self.loop_limit = self.opts.get('max_steps', 2_000_000)
        self.float_max_special = True
        self.zcache = {}; self.lcache = {}; self.zscache = {}; self.lscache = {}; self.lincache = {}
        self.ops = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith('op_')}
        self.bvvars = {}
        self.typeids = {}
        self.rng = random.Random(self.opts.get('seed', 1))

    # ------------------------------------------------------------------ globals
    def gptr(self, name):
        if name in self.m.aliases:
            return self.const(self.m.aliases[name], PTR)
        if name in self.gobj: return Ptr(self.gobj[name], 0)
        if name in self.m.globals:
            g = self.m.globals[name]
            oid = self.newid(); self.gobj[name] = oid
            size = self.m.sizeof(g.ty) if g.ty.k != 'opaque' else 8
            if g.external: size = max(size, 256)
            o = Obj(size, 'const' if g.const else 'global', name, 0, 0 if not g.external else UNDEF)
            if g.external: o.fill = 0
            self.base_mem[oid] = o
            init = self.m.ginit(g)
            if init is not None:
                self.write_const(o, 0, init, g.ty)
            return Ptr(oid, 0)
        if name in self.m.funcs:
            if name not in self.fobj:
                oid = self.newid(); self.fobj[name] = oid; self.objfn[oid] = name
                self.base_mem[oid] = Obj(1, 'func', name, 0)
            return Ptr(self.fobj[name], 0)
        raise Unsupported('global ' + name)

    def newid(self):
        self.nobj += 1; return self.nobj

    def write_const(self, o, off, c, t):
        k = c[0]
        if k == 'z':
            return   # fill is zero
        if k == 'u': return
        if k == 'agg':
            if t.k == 'array' or t.k == 'vector':
                es = self.m.sizeof(t.b)
                for i, e in enumerate(c[1]): self.write_const(o, off + i * es, e, t.b)
            else:
                self.m.sizeof(t)
                for i, e in enumerate(c[1]): self.write_const(o, off + t.offs[i], e, t.a[i])
            return
        v = self.const(c, t)
        o.cells[off] = (self.m.sizeof(t), v)

    # ------------------------------------------------------------------ constants
    def const(self, c, t=None):
        k = c[0]
        if k == 'c': return c[1]
        if k == 'n': return NULL
        if k == 'f': return self.fconst(c[1])
        if k == 'f80': return self.fconst(float(c[1])) if self.mode != 'real' else rconst(poly.norm_c(c[1]))
        if k == 'g': return self.gptr(c[1])
        if k == 'u': return self.undef(c[1])
        if k == 'z': return self.zero(c[1])
        if k == 'agg':
            tt = c[2]
            if tt.k == 'struct': return [self.const(e, tt.a[i]) for i, e in enumerate(c[1])]
            return [self.const(e, tt.b) for e in c[1]]
        if k == 'gep':
            return self.gep(c[1], [(self.const(v, ty), ty) for v, ty in c[2]])
        if k == 'cast':
            v = self.const(c[2], c[3])
            if c[1] in ('ptrtoint', 'bitcast', 'addrspacecast'): return v
            if c[1] == 'inttoptr': return self.toptr(v)
            if c[1] == 'trunc': return v & ((1 << c[4].a) - 1)
        if k == 'bin':
            return self.ibin(c[1], self.const(c[2], c[4]), self.const(c[3], c[4]), c[4].a)
        raise Unsupported('const %r' % (c,))

    def fconst(self, x):
        if self.mode == 'real':
            if x != x or abs(x) >= BIG: return x
            return rconst(poly.norm_c(Fraction(x)))
        return x

    def undef(self, t):
        if t.k == 'struct': return [self.undef(x) for x in t.a]
        if t.k in ('array', 'vector'): return [self.undef(t.b) for _ in range(t.a)]
        return UNDEF
    def zero(self, t):
        k = t.k
        if k == 'int': return 0
        if k in ('double', 'float', 'x86_fp80'): return self.fconst(0.0)
        if k == 'ptr': return NULL
        if k == 'struct': return [self.zero(x) for x in t.a]
        if k in ('array', 'vector'): return [self.zero(t.b) for _ in range(t.a)]
        return 0

    def ev(self, o):
        k = o[0]
        if k == 'l':
            try: return self.regs[o[1]]
            except KeyError: raise Unsupported('unbound register %' + o[1])
        if k == 'c': return o[1]
        i = id(o)
        v = self.cc.get(i)
        if v is None:
            v = self.const(o); self.cc[i] = v
        return v

    # ------------------------------------------------------------------ memory
    def getobj(self, oid):
        o = self.st.mem.get(oid)
        if o is None:
            o = self.base_mem.get(oid)
            if o is None:
                if oid == 0: raise Violation('memory', 'null pointer access')
                raise Violation('memory', 'access to dead stack object')
        return o
    def wobj(self, oid):
        o = self.getobj(oid)
        if o.owner != self.st.tok:
            o = o.copy(self.st.tok); self.st.mem[oid] = o
        return o
    def alloc(self, size, kind, name='', fill=UNDEF):
        oid = self.newid()
        self.st.mem[oid] = Obj(size, kind, name, self.st.tok, fill)
        return Ptr(oid, 0)
    def toptr(self, v):
        if isinstance(v, Ptr): return v
        if v is UNDEF: return v
        if type(v) is int:
            if v == 0: return NULL
            return Ptr(0, v)
        return Ptr(0, v)
    def addr(self, p, size, write):
        """resolve pointer -> (obj id, concrete offset), with checks"""
        if p is UNDEF: raise Violation('uninit', 'access through uninitialised pointer')
        if type(p) is int or is_z(p): p = self.toptr(p)
        if not isinstance(p, Ptr): raise Unsupported('address %r' % (p,))
        if p.o == 0: raise Violation('memory', 'null/invalid pointer access')
        o = self.getobj(p.o)
        if o.freed: raise Violation('memory', 'use after free')
        off = p.off
        if type(off) is not int:
            w = 64
            bad = z3.Or(off < 0, off > o.size - size) if o.size >= size else z3.BoolVal(True)
            if self.decide(z3.simplify(bad)):
                raise Violation('memory', 'out of bounds %s (symbolic offset, object size %d)' % ('write' if write else 'read', o.size))
            off = self.concretize(off, 64)
            off = sgn(off, 64)
        if off < 0 or off + size > o.size:
            raise Violation('memory', 'out of bounds %s at offset %d size %d of object of size %d (%s)' % ('write' if write else 'read', off, size, o.size, o.kind))
        if write and o.kind in ('const', 'func'): raise Violation('memory', 'write to constant')
        return p.o, off

    def rd(self, oid, off, size):
        o = self.getobj(oid)
        c = o.cells.get(off)
        if c is not None and c[0] == size: return c[1]
        # compose
        cells = o.cells
        parts = []
        pos = off; end = off + size
        ks = None
        while pos < end:
            c = cells.get(pos)
            if c is not None:
                n = min(c[0], end - pos)
                if n == c[0]: parts.append((pos - off, n, c[1]))
                else: parts.append((pos - off, n, self.sub(c[1], c[0], 0, n)))
                pos += n
                continue
            # inside an earlier cell?
            hit = None
            for b in range(1, 33):
                cc = cells.get(pos - b)
                if cc is not None:
                    if cc[0] > b: hit = (pos - b, cc)
                    break
            if hit:
                b0, cc = hit
                n = min(b0 + cc[0], end) - pos
                parts.append((pos - off, n, self.sub(cc[1], cc[0], pos - b0, n))); pos += n
                continue
            # gap byte
            parts.append((pos - off, 1, o.fill)); pos += 1
        if all(p[2] is UNDEF for p in parts): return UNDEF
        # merge ints
        if all(type(p[2]) is int or (is_z(p[2]) and isinstance(p[2], (z3.BitVecRef, z3.BoolRef))) for p in parts):
            if all(type(p[2]) is int for p in parts):
                v = 0
                for (b, n, x) in parts: v |= (x & ((1 << (8 * n)) - 1)) << (8 * b)
                return v
            bs = []
            for (b, n, x) in reversed(parts):
                bs.append(z3.BitVecVal(x, 8 * n) if type(x) is int else self.tobv(x, 8 * n))
            return z3.simplify(z3.Concat(*bs)) if len(bs) > 1 else bs[0]
        if len(parts) == 1: return parts[0][2]
        # merge UNDEF runs
        mp = []
        for b, n, x in parts:
            if mp and x is UNDEF and mp[-1][2] is UNDEF: mp[-1] = (mp[-1][0], mp[-1][1] + n, UNDEF)
            elif mp and type(x) is int and type(mp[-1][2]) is int and mp[-1][1] + n <= 8:
                pb, pn, px = mp[-1]; mp[-1] = (pb, pn + n, px | (x << (8 * pn)))
            else: mp.append((b, n, x))
        return Pieces(mp, size)

    def sub(self, v, vs, off, n):
        """bytes [off,off+n) of value v of size vs"""
        if v is UNDEF: return UNDEF
        if isinstance(v, Pieces):
            out = []
            for b, k, x in v.parts:
                lo = max(b, off); hi = min(b + k, off + n)
                if lo < hi: out.append((lo - off, hi - lo, x if (lo == b and hi == b + k) else self.sub(x, k, lo - b, hi - lo)))
            return out[0][2] if len(out) == 1 else Pieces(out, n)
        if isinstance(v, list):
            es = vs // len(v)
            if off % es == 0 and n == es: return v[off // es]
            return self.sub(Pieces([(i * es, es, x) for i, x in enumerate(v)], vs), vs, off, n)
        v = self.bits(v, vs * 8)
        if type(v) is int: return (v >> (8 * off)) & ((1 << (8 * n)) - 1)
        return z3.simplify(z3.Extract(8 * (off + n) - 1, 8 * off, self.tobv(v, 8 * vs)))

    def tobv(self, v, w):
        if type(v) is int: return z3.BitVecVal(v, w)
        if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if isinstance(v, RC): return z3.BitVecVal(1 if self.decide(v) else 0, w)
        if isinstance(v, z3.BitVecRef):
            if v.size() == w: return v
            if v.size() < w: return z3.ZeroExt(w - v.size(), v)
            return z3.Extract(w - 1, 0, v)
        v = self.bits(v, w)
        if type(v) is int: return z3.BitVecVal(v, w)
        return v

    def bits(self, v, w):
        """reinterpret value as integer bits"""
        if type(v) is int or isinstance(v, (z3.BitVecRef, z3.BoolRef, Ptr, RC)) or v is UNDEF: return v
        if isinstance(v, float):
            return struct.unpack('<Q', struct.pack('<d', v))[0] if w == 64 else struct.unpack('<I', struct.pack('<f', v))[0]
        if isinstance(v, RF):
            if v.is_const():
                x = float(v.const())
                return struct.unpack('<Q', struct.pack('<d', x))[0] if w == 64 else struct.unpack('<I', struct.pack('<f', x))[0]
            raise Unsupported('bit pattern of symbolic real')
        if isinstance(v, z3.FPRef):
            # reuse source bits when the value is a direct reinterpretation of a bit-vector
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_FPA_TO_FP and v.num_args() == 1 and isinstance(v.arg(0), z3.BitVecRef):
                return v.arg(0)
            b = z3.FreshConst(z3.BitVecSort(w), 'bits')
            self.st.pc.append(z3.fpBVToFP(b, v.sort()) == v)
            self.st.bwit = None
            return b
        if isinstance(v, list) or isinstance(v, Pieces):
            if isinstance(v, list):
                es = (w // 8) // len(v)
                v = Pieces([(i * es, es, x) for i, x in enumerate(v)], w // 8)
            out = 0; sym = []
            for b, n, x in v.parts:
                x = self.bits(x, n * 8)
                if x is UNDEF: return UNDEF
                sym.append((b, n, x))
            if all(type(x) is int for _, _, x in sym):
                for b, n, x in sym: out |= x << (8 * b)
                return out
            bs = [self.tobv(x, 8 * n) for b, n, x in sorted(sym, key=lambda t: -t[0])]
            return z3.simplify(z3.Concat(*bs)) if len(bs) > 1 else bs[0]
        raise Unsupported('bits of %r' % type(v))

    def load(self, p, t):
        k = t.k
        if k == 'struct' or k == 'array':
            n = t.a if k == 'array' else len(t.a)
            out = []
            self.m.sizeof(t)
            for i in range(n):
                off = i * self.m.sizeof(t.b) if k == 'array' else t.offs[i]
                out.append(self.load(Ptr(p.o, self.padd(p.off, off)), t.b if k == 'array' else t.a[i]))
            return out
        if k == 'vector' and t.b.k != 'int' or (k == 'vector' and t.b.a >= 8):
            es = self.m.sizeof(t.b)
            size = es * t.a
            oid, off = self.addr(p, size, False)
            return [self.cvt(self.rd(oid, off + i * es, es), t.b) for i in range(t.a)]
        size = self.m.sizeof(t)
        if k == 'int' and t.a % 8 == 0: size = t.a // 8   # e.g. i48: six bytes are accessed
        if k == 'x86_fp80': size = 16
        oid, off = self.addr(p, size, False)
        return self.cvt(self.rd(oid, off, size), t)

    def cvt(self, v, t):
        """value loaded from memory -> typed value"""
        k = t.k
        if v is UNDEF: return v
        if k == 'int':
            if t.a == 1:
                if type(v) is int: return v & 1
                if isinstance(v, z3.BitVecRef): return z3.simplify(z3.Extract(0, 0, v) == 1)
                return v
            if type(v) is int: return v & ((1 << t.a) - 1)
            if isinstance(v, z3.BoolRef): return self.tobv(v, t.a)
            if isinstance(v, z3.BitVecRef) and v.size() != t.a: return self.tobv(v, t.a)
            return v
        if k == 'ptr':
            if type(v) is int: return self.toptr(v)
            return v
        if k in ('double', 'float'):
            if type(v) is int:
                x = struct.unpack('<d', struct.pack('<Q', v))[0] if k == 'double' else struct.unpack('<f', struct.pack('<I', v & 0xffffffff))[0]
                return self.fconst(x)
            if isinstance(v, z3.BitVecRef):
                if self.mode == 'fp': return z3.fpBVToFP(v, F64 if k == 'double' else F32)
                raise Unsupported('float from symbolic bits')
            if isinstance(v, Pieces):
                v = self.bits(v, t.a); return self.cvt(v, t)
            return v
        return v

    def wr(self, oid, off, size, v):
        o = self.wobj(oid)
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v); return
        # remove overlapped
        self.clear(o, off, size)
        if isinstance(v, Pieces):
            for b, n, x in v.parts: cells[off + b] = (n, x)
        else:
            cells[off] = (size, v)

    def clear(self, o, off, size):
        cells = o.cells; end = off + size
        for b in range(1, 33):
            c = cells.get(off - b)
            if c is not None:
                if c[0] > b:
                    del cells[off - b]
                    cells[off - b] = (b, self.sub(c[1], c[0], 0, b))
                    if c[0] > b + size:
                        cells[end] = (c[0] - b - size, self.sub(c[1], c[0], b + size, c[0] - b - size))
                break
        if size <= 64 or size <= 2 * len(cells):
            rng = range(off, end)
        else:
            rng = [k for k in cells if off <= k < end]
        for p in rng:
            c = cells.get(p)
            if c is not None:
                del cells[p]
                if p + c[0] > end:
                    cells[end] = (p + c[0] - end, self.sub(c[1], c[0], end - p, p + c[0] - end))

    def store(self, p, v, t):
        k = t.k
        if k == 'struct' or k == 'array':
            n = t.a if k == 'array' else len(t.a)
            self.m.sizeof(t)
            for i in range(n):
                off = i * self.m.sizeof(t.b) if k == 'array' else t.offs[i]
                self.store(Ptr(p.o, self.padd(p.off, off)), v[i] if v is not UNDEF else UNDEF, t.b if k == 'array' else t.a[i])
            return
        if k == 'vector':
            es = self.m.sizeof(t.b); size = es * t.a
            oid, off = self.addr(p, size, True)
            for i in range(t.a): self.wr(oid, off + i * es, es, v[i] if isinstance(v, list) else self.sub(v, size, i * es, es))
            return
        size = self.m.sizeof(t)
        if k == 'int' and t.a % 8 == 0: size = t.a // 8
        oid, off = self.addr(p, size, True)
        if k == 'int' and t.a == 1 and isinstance(v, RC): v = 1 if self.decide(v) else 0
        self.wr(oid, off, size, v)

    def padd(self, a, b):
        if type(a) is int and type(b) is int: return a + b
        if type(a) is int: a = z3.BitVecVal(a, 64)
        if type(b) is int:
            if b == 0: return a
            b = z3.BitVecVal(b, 64)
        return z3.simplify(a + b)

    def gep(self, bt, ops):
        p = ops[0][0]
        if isinstance(p, list): raise Unsupported('vector gep')
        if p is UNDEF: return UNDEF
        if not isinstance(p, Ptr): p = self.toptr(p)
        off = p.off
        t = bt
        first = True
        for v, ty in ops[1:]:
            if first:
                first = False; es = self.m.sizeof(t)
            else:
                if t.k == 'struct':
                    self.m.sizeof(t)
                    off = self.padd(off, t.offs[v]); t = t.a[v]; continue
                t = t.b; es = self.m.sizeof(t)
            if type(v) is int:
                if v: off = self.padd(off, sgn(v, ty.a) * es)
            elif v is UNDEF: return UNDEF
            else:
                if isinstance(v, Ptr): raise Unsupported('gep index pointer')
                if ty.a < 64: v = z3.SignExt(64 - ty.a, v)
                off = self.padd(off, v * es if es != 1 else v)
        return Ptr(p.o, off)

    # ------------------------------------------------------------------ solving
    def zvar(self, v):
        vi = poly.VARS[v]
        if vi.z is None: vi.z = z3.Real('v%d_%s' % (v, vi.name))
        return vi.z
    def zpoly(self, p):
        z = self.zcache.get(p)
        if z is not None: return z
        ts = []
        for m, c in p.d.items():
            fs = []
            for v, e in m:
                zv = self.zvar(v)
                for _ in range(e): fs.append(zv)
            cz = z3.RealVal(str(c))
            if not fs: ts.append(cz)
            elif c == 1: ts.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
            else: ts.append(z3.Product(cz, *fs))
        z = z3.Sum(*ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
        self.zcache[p] = z
        return z
    def zsign(self, p, mask):
        z = self.zscache.get((p, mask))
        if z is None: z = self.zscache[(p, mask)] = self.zmask(self.zpoly(p), mask)
        return z
    def is_lin(self, p):
        r = self.lincache.get(p)
        if r is None: r = self.lincache[p] = all(not m or (len(m) == 1 and m[0][1] == 1) for m in p.d)
        return r
    def zmask(self, z, mask):
        if mask == NEG: return z < 0
        if mask == ZER: return z == 0
        if mask == POS: return z > 0
        if mask == NEG | ZER: return z <= 0
        if mask == POS | ZER: return z >= 0
        if mask == NEG | POS: return z != 0
        return z3.BoolVal(mask == 7)
    def zdefs(self, vs):
        """definitional constraints for vars (closure); returns list, and the closed var set"""
        out = []; seen = set(); work = list(vs)
        while work:
            v = work.pop()
            if v in seen: continue
            seen.add(v)
            vi = poly.VARS[v]
            if vi.kind == 'sqrt':
                out.append(self.zvar(v) >= 0)
                out.append(self.zvar(v) * self.zvar(v) == self.zpoly(vi.arg))
                work.extend(vi.arg.vars())
            elif vi.kind in ('sin', 'cos') and vi.partner is not None:
                if v > vi.partner or vi.partner not in seen:
                    work.append(vi.partner)
                if vi.kind == 'sin':
                    s_, c_ = self.zvar(v), self.zvar(vi.partner)
                    out.append(s_ * s_ + c_ * c_ == 1)
            elif vi.nonneg and vi.kind == 'abs':
                out.append(self.zvar(v) >= 0)
            elif vi.kind == 'fn' and vi.arg[0] in FN_AXIOMS:
                args = vi.arg[1]
                out.extend(FN_AXIOMS[vi.arg[0]](self, self.zvar(v), args))
                for a in args:
                    work.extend(a.n.vars())
                    for f, _ in a.den: work.extend(f.vars())
        return out, seen
    def zrf_sign(self, a):
        """z3 term with the sign of a rational function (its denominators are non-zero)"""
        z = self.zpoly(a.n)
        for f, e in a.den:
            if e % 2: z = z * self.zpoly(f)
        return z
    def zden(self, a):
        z = z3.RealVal(1)
        for f, e in a.den:
            for _ in range(e): z = z * self.zpoly(f)
        return z
    def zrf_cmp(self, a, c):
        """z3 term with the sign of a - c"""
        return self.zrf_sign(self.rbin('fsub', a, rconst(c), DOUBLE))

    def cone(self, vs):
        """real PC constraints connected to vs"""
        st = self.st
        todo = [(p, m) for p, m in st.signs.items() if m != 7]
        cur = set(vs)
        _, cur = self.zdefs(cur)
        used = []
        pend = todo
        changed = True
        while changed:
            changed = False; rest = []
            for p, m in pend:
                pv = p.vars()
                if not pv.isdisjoint(cur):
                    used.append((p, m))
                    _, cl = self.zdefs(pv)
                    if not cl <= cur:
                        cur |= cl
                    changed = True
                else: rest.append((p, m))
            pend = rest
        return used, cur

    def q(self, cons, timeout, want_model=False, bounds=None, logic='QF_NRA'):
        t0 = time.time()
        s = z3.SolverFor(logic) if self.mode == 'real' and self._real_only(cons) else z3.Solver()
        s.set('timeout', int(timeout))
        s.add(*cons)
        try: r = s.check()
        except z3.Z3Exception: r = z3.unknown
        dt = time.time() - t0
        self.stats.queries += 1; self.stats.qtime += dt
        rs = str(r)
        if rs == 'sat': self.stats.sat += 1
        elif rs == 'unsat': self.stats.unsat += 1
        else: self.stats.unknown += 1
        if want_model and rs == 'sat':
            return rs, s.model()
        return rs, None

    def _real_only(self, cons): return self._ro
    _ro = True

    # linear relaxation: every non-linear monomial becomes a variable of its own (with its sign when known)
    def lmono(self, m, ms):
        if len(m) == 1 and m[0][1] == 1: return self.zvar(m[0][0])
        ms.add(m)
        z = self.lcache.get(m)
        if z is None:
            z = self.lcache[m] = z3.Real('m%d' % len(self.lcache))
        return z
    def lpoly(self, p, ms):
        ts = [z3.RealVal(str(c)) if not m else (self.lmono(m, ms) if c == 1 else z3.RealVal(str(c)) * self.lmono(m, ms)) for m, c in p.d.items()]
        return z3.Sum(*ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
    def lin_unsat(self, items, cl):
        ms = set(); cons = []
        for p, m in items:
            e = self.lscache.get((p, m))
            if e is None:
                pm = set(); e = self.lscache[(p, m)] = (self.zmask(self.lpoly(p, pm), m), pm)
            cons.append(e[0]); ms |= e[1]
        if not ms: return False
        vsign = {}
        for v in cl:
            vi = poly.VARS[v]
            if vi.kind == 'sqrt':
                cons.append(self.lmono(((v, 2),), ms) == self.lpoly(vi.arg, ms))
            if vi.kind == 'sqrt' or vi.nonneg: vsign[v] = ZER | POS; cons.append(self.zvar(v) >= 0)
            if vi.kind == 'sin' and vi.partner is not None: cons.append(self.lmono(((v, 2),), ms) + self.lmono(((vi.partner, 2),), ms) == 1)
        for p, m in items:
            if len(p.d) == 1:
                (mo, c), = p.d.items()
                if len(mo) == 1 and mo[0][1] == 1:
                    k = m if c > 0 else flip(m); vsign[mo[0][0]] = vsign.get(mo[0][0], 7) & k
        for mo in ms:
            s = 1; strict = True; known = True
            for v, e in mo:
                k = vsign.get(v, 7)
                if k & ZER: strict = False
                if e % 2:
                    if k & NEG and k & POS: known = False; break
                    if k & NEG: s = -s
            if not known: continue
            z = self.lcache[mo]
            cons.append((z > 0 if s > 0 else z < 0) if strict else (z >= 0 if s > 0 else z <= 0))
        t0 = time.time()
        s = z3.SolverFor('QF_LRA'); s.set('timeout', 500); s.add(*cons)
        try: r = str(s.check())
        except z3.Z3Exception: r = 'unknown'
        self.stats.qtime += time.time() - t0
        if r != 'unsat': return False
        self.stats.queries += 1; self.stats.unsat += 1
        return True

    def real_q(self, extra, timeout, model=False):
        """is PC /\\ extra (list of (poly,mask)) satisfiable"""
        vs = set()
        for p, m in extra: vs |= p.vars()
        used, cl = self.cone(vs)
        defs, _ = self.zdefs(cl)
        lin = not defs and all(self.is_lin(p) for p, m in used) and all(self.is_lin(p) for p, m in extra)
        if not lin and self.lin_unsat(used + list(extra), cl): return 'unsat', None
        cons = defs + [self.zsign(p, m) for p, m in used] + [self.zsign(p, m) for p, m in extra]
        self._ro = True
        return self.q(cons, timeout, model, logic='QF_LRA' if lin else 'QF_NRA')

    def mval(self, m, v):
        z = m.eval(self.zvar(v), model_completion=True)
        return z3frac(z)

    def upd_wit(self, m, extra):
        """merge a model into the witness; keep only if numerically consistent"""
        st = self.st
        w = {}
        for v in range(len(poly.VARS)):
            vi = poly.VARS[v]
            if vi.kind == 'in' or vi.kind=='abs':
                zv = vi.z
                x = None
                if zv is not None:
                    z = m[zv]
                    if z is not None: x = z3frac(z)
                if x is None: x = st.wit.get(v, None) if st.wit else None
                if x is None: x = Fraction(self.rng.randint(-7, 7), 4)
                w[v] = x
            elif vi.kind in ('sin', 'cos') and vi.z is not None:
                z = m[vi.z]
                if z is not None: w[v] = float(z3frac(z))
        return w

    def wit_ok(self, w, items):
        for p, m in items:
            s = self.wsign(p, w)
            if s == 0 or not (s & m): return False
        return True

    def wsign(self, p, w):
        """sign mask bit of p under witness or 0 when unsure"""
        if not w: return 0
        r = poly.feval(p, w)
        if r is None: return 0
        v, mag = r
        if abs(v) <= 1e-9 * (mag + 1e-300): 
            return ZER if self.wexact(p, w) else 0
        return POS if v > 0 else NEG
    def wexact(self, p, w):
        try:
            s = 0
            for m, c in p.d.items():
                t = Fraction(c)
                for v, e in m:
                    x = w.get(v)
                    if not isinstance(x, (Fraction, int)): return False
                    t *= x ** e
                s += t
            return s == 0
        except Exception: return False

    def sign_allowed(self, p):
        """p primitive; allowed sign mask"""
        a = self.st.signs.get(p)
        if a is None:
            a = 7
            if syn_nonneg(p): a = ZER | POS
            elif syn_nonneg(-p): a = ZER | NEG
        return a

    def norm(self, p):
        k = poly.content(p)
        if k == 1: return p, 1
        return p.scale(Fraction(1) / k), (1 if k > 0 else -1)

    def decide_rc(self, rc):
        p, mask = rc.p, rc.mask
        if p.is_const():
            c = p.const()
            s = ZER if c == 0 else (POS if c > 0 else NEG)
            return bool(s & mask)
        p, sg = self.norm(p)
        if sg < 0: mask = flip(mask)
        st = self.st
        al = self.sign_allowed(p)
        if al & mask == al: return True
        if al & mask == 0: return False
        # split by monomial/variable factors
        A = al & mask; B = al & ~mask & 7
        ws = self.wsign(p, st.wit)
        fa = fb = None
        if ws & A: fa = True
        if ws & B: fb = True
        ma = mb = None
        if fa is None:
            r, m = self.real_q([(p, A)], self.cond_timeout, True)
            fa = r != 'unsat'; ma = m
        if fa and fb is None:
            r, m = self.real_q([(p, B)], self.cond_timeout, True)
            fb = r != 'unsat'; mb = m
        elif not fa:
            fb = True
        if fa and not fb:
            st.signs[p] = A; return True
        if fb and not fa:
            st.signs[p] = B; return False
        wA = st.wit if ws & A else (self.upd_wit(ma, None) if ma is not None else {})
        wB = st.wit if ws & B else (self.upd_wit(mb, None) if mb is not None else {})
        def fA(s):
            s.signs[p] = A; s.wit = wA
        def fB(s):
            s.signs[p] = B; s.wit = wB
        raise Fork([fA, fB])

    def bv_q(self, extra, timeout, model=False):
        self._ro = False
        return self.q(self.st.pc + extra, timeout, model)

    def beval(self, c):
        m = self.st.bwit
        if m is None: return None
        try:
            r = m.eval(c, model_completion=True)
            if z3.is_true(r): return True
            if z3.is_false(r): return False
        except z3.Z3Exception: pass
        return None

    def decide(self, c):
        """decide a condition; may raise Fork"""
        if type(c) is int: return bool(c & 1)
        if c is UNDEF: raise Violation('uninit', 'decision depends on uninitialised value')
        if isinstance(c, RC): return self.decide_rc(c)
        if isinstance(c, z3.BitVecRef): c = c != 0
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        st = self.st
        k = st.known.get(c.get_id())
        if k is not None: return k[1]
        w = self.beval(c)
        fa = fb = None; ma = mb = st.bwit
        if w is True: fa = True
        elif w is False: fb = True
        if fa is None:
            r, m = self.bv_q([c], self.cond_timeout, True)
            fa = r != 'unsat'; ma = m
        if fb is None:
            if not fa: fb = True
            else:
                r, m = self.bv_q([z3.Not(c)], self.cond_timeout, True)
                fb = r != 'unsat'; mb = m
        cid = c.get_id()
        if fa and not fb:
            st.known[cid] = (c, True); return True
        if fb and not fa:
            st.known[cid] = (c, False); return False
        def fA(s):
            s.pc.append(c); s.known[cid] = (c, True); s.bwit = ma
        def fB(s):
            s.pc.append(z3.Not(c)); s.known[cid] = (c, False); s.bwit = mb
        raise Fork([fA, fB])

    def concretize(self, v, w):
        """fork over feasible values of a bit-vector"""
        if type(v) is int: return v
        v = z3.simplify(v)
        if z3.is_bv_value(v): return v.as_long()
        if self.st.bwit is not None:
            x = self.st.bwit.eval(v, model_completion=True)
            if z3.is_bv_value(x):
                x = x.as_long()
                if self.decide(v == x): return x
                return self.concretize(v, w)
        r, m = self.bv_q([], self.check_timeout, True)
        if r == 'unsat': raise PathEnd('infeasible')
        if r != 'sat': raise Unsupported('concretize unknown')
        self.st.bwit = m
        x = m.eval(v, model_completion=True).as_long()
        if self.decide(v == x): return x
        return self.concretize(v, w)

    # ------------------------------------------------------------------ integer ops
    def ibin(self, op, a, b, w):
        if a is UNDEF or b is UNDEF:
            if op == 'and' and (a == 0 or b == 0): return 0
            return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr): return self.pbin(op, a, b, w)
        if type(a) is not int and not isinstance(a, (z3.BitVecRef, z3.BoolRef, RC)): a = self.bits(a, w)
        if type(b) is not int and not isinstance(b, (z3.BitVecRef, z3.BoolRef, RC)): b = self.bits(b, w)
        if a is UNDEF or b is UNDEF: return UNDEF
        if type(a) is int and type(b) is int:
            M = (1 << w) - 1
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M if b < w else UNDEF
            if op == 'lshr': return a >> b if b < w else UNDEF
            if op == 'ashr': return (sgn(a, w) >> b) & M if b < w else UNDEF
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0: raise Violation('arith', 'integer division by zero')
                if op == 'udiv': return a // b
                if op == 'urem': return a % b
                x, y = sgn(a, w), sgn(b, w)
                qt = abs(x) // abs(y)
                if (x < 0) != (y < 0): qt = -qt
                if op == 'sdiv': return qt & M
                return (x - qt * y) & M
        if w == 1:
            if op in ('and', 'or', 'xor'):
                return self.bbin(op, a, b)
            a = self.tobv(a, 1); b = self.tobv(b, 1)
        if isinstance(a, RC) or isinstance(a, z3.BoolRef): a = self.tobv(a, w)
        if isinstance(b, RC) or isinstance(b, z3.BoolRef): b = self.tobv(b, w)
        # cheap identities
        if type(b) is int:
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
            if b == 0 and op in ('and', 'mul'): return 0
            if op == 'mul' and b == 1: return a
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0: raise Violation('arith', 'integer division by zero')
        if type(a) is int:
            if a == 0 and op in ('add', 'or', 'xor'): return b
            if a == 0 and op in ('and', 'mul'): return 0
        if op in ('udiv', 'urem', 'sdiv', 'srem') and type(b) is not int:
            if self.decide(b == 0): raise Violation('arith', 'integer division by zero')
        A = z3.BitVecVal(a, w) if type(a) is int else a
        B = z3.BitVecVal(b, w) if type(b) is int else b
        if op == 'add': r = A + B
        elif op == 'sub': r = A - B
        elif op == 'mul': r = A * B
        elif op == 'and': r = A & B
        elif op == 'or': r = A | B
        elif op == 'xor': r = A ^ B
        elif op == 'shl': r = A << B
        elif op == 'lshr': r = z3.LShR(A, B)
        elif op == 'ashr': r = A >> B
        elif op == 'udiv': r = z3.UDiv(A, B)
        elif op == 'urem': r = z3.URem(A, B)
        elif op == 'sdiv': r = A / B
        elif op == 'srem': r = z3.SRem(A, B)
        else: raise Unsupported(op)
        return self.sv(r)

    def sv(self, r):
        r = z3.simplify(r)
        if z3.is_bv_value(r): return r.as_long()
        return r

    def bbin(self, op, a, b):
        if type(a) is int: a, b = b, a
        if type(b) is int:
            b &= 1
            if op == 'and': return a if b else 0
            if op == 'or': return 1 if b else a
            if op == 'xor':
                if not b: return a
                return self.bnot(a)
        if isinstance(a, RC) or isinstance(b, RC):
            if isinstance(a, RC) and isinstance(b, RC) and a.p == b.p and op in ('and', 'or'):
                return RC(a.p, a.mask & b.mask if op == 'and' else a.mask | b.mask)
            x = self.decide(a) if isinstance(a, RC) else None
            if x is not None: return self.bbin(op, b, 1 if x else 0)
            y = self.decide(b)
            return self.bbin(op, a, 1 if y else 0)
        if isinstance(a, z3.BitVecRef): a = a != 0
        if isinstance(b, z3.BitVecRef): b = b != 0
        r = z3.And(a, b) if op == 'and' else z3.Or(a, b) if op == 'or' else z3.Xor(a, b)
        return self.bsimp(r)
    def bsimp(self, r):
        r = z3.simplify(r)
        if z3.is_true(r): return 1
        if z3.is_false(r): return 0
        return r
    def bnot(self, a):
        if type(a) is int: return 1 - (a & 1)
        if isinstance(a, RC): return RC(a.p, a.mask ^ 7)
        if isinstance(a, z3.BitVecRef): a = a != 0
        return self.bsimp(z3.Not(a))

    def paddr(self, p):
        """integer address of pointer"""
        if p.o == 0: return p.off if type(p.off) is int else p.off
        base = p.o << 32
        if type(p.off) is int: return (base + p.off) & ((1 << 64) - 1)
        return z3.simplify(z3.BitVecVal(base, 64) + p.off)

    def pbin(self, op, a, b, w):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if op == 'sub' and a.o == b.o:
                if type(a.off) is int and type(b.off) is int: return (a.off - b.off) & ((1 << 64) - 1)
                return self.sv(self.tobv(a.off & ((1<<64)-1) if type(a.off) is int else a.off, 64) - self.tobv(b.off & ((1<<64)-1) if type(b.off) is int else b.off, 64))
            return self.ibin(op, self.paddr(a), self.paddr(b), w)
        if op == 'add':
            if isinstance(b, Ptr): a, b = b, a
            if type(b) is int: return Ptr(a.o, self.padd(a.off, sgn(b, 64)))
            return Ptr(a.o, self.padd(a.off, b))
        if op == 'sub' and isinstance(a, Ptr):
            if type(b) is int: return Ptr(a.o, self.padd(a.off, -sgn(b, 64)))
            return Ptr(a.o, self.padd(a.off, -b))
        x = self.paddr(a) if isinstance(a, Ptr) else a
        y = self.paddr(b) if isinstance(b, Ptr) else b
        return self.ibin(op, x, y, w)

    def icmp(self, pred, a, b, t):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if type(a) is int: a = self.toptr(a)
            if type(b) is int: b = self.toptr(b)
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o == b.o:
                    if type(a.off) is int and type(b.off) is int:
                        return int(cmp_s(pred, a.off, b.off))
                    x = self.tobv(msk(a.off, 64) if type(a.off) is int else a.off, 64)
                    y = self.tobv(msk(b.off, 64) if type(b.off) is int else b.off, 64)
                    return self.zcmp(pred.replace('u', 's') if pred not in ('eq', 'ne') else pred, x, y)
                if pred == 'eq' and (type(a.off) is int and type(b.off) is int): return 0
                if pred == 'ne' and (type(a.off) is int and type(b.off) is int): return 1
                if pred == 'eq': return 0
                if pred == 'ne': return 1
                a = self.paddr(a); b = self.paddr(b)
                return self.icmp(pred, a, b, I64)
            a = self.paddr(a) if isinstance(a, Ptr) else a
            b = self.paddr(b) if isinstance(b, Ptr) else b
            return self.icmp(pred, a, b, I64)
        w = t.a if t.k == 'int' else 64
        if isinstance(a, RF) and not a.is_const() and type(b) is int:      # the sign bit of a real (zeros count as positive)
            if (pred == 'slt' and b == 0): return RC(sign_poly(a), NEG)
            if (pred == 'sgt' and sgn(b, w) == -1) or (pred == 'sge' and b == 0): return RC(sign_poly(a), POS | ZER)
        if type(a) is not int and not isinstance(a, (z3.BitVecRef, z3.BoolRef, RC)): a = self.bits(a, w)
        if type(b) is not int and not isinstance(b, (z3.BitVecRef, z3.BoolRef, RC)): b = self.bits(b, w)
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Ptr): a = self.paddr(a)
        if isinstance(b, Ptr): b = self.paddr(b)
        if type(a) is int and type(b) is int:
            if pred[0] == 's': a = sgn(a, w); b = sgn(b, w)
            return int(cmp_s(pred, a, b))
        if w == 1:
            if pred == 'eq': return self.bnot(self.bbin('xor', a, b))
            if pred == 'ne': return self.bbin('xor', a, b)
        return self.zcmp(pred, self.tobv(a, w), self.tobv(b, w))

    def zcmp(self, pred, a, b):
        if pred == 'eq': r = a == b
        elif pred == 'ne': r = a != b
        elif pred == 'slt': r = a < b
        elif pred == 'sle': r = a <= b
        elif pred == 'sgt': r = a > b
        elif pred == 'sge': r = a >= b
        elif pred == 'ult': r = z3.ULT(a, b)
        elif pred == 'ule': r = z3.ULE(a, b)
        elif pred == 'ugt': r = z3.UGT(a, b)
        elif pred == 'uge': r = z3.UGE(a, b)
        return self.bsimp(r)

    # ------------------------------------------------------------------ float ops
    def fbin(self, op, a, b, t):
        if a is UNDEF or b is UNDEF: return UNDEF
        if self.mode == 'real': return self.rbin(op, a, b, t)
        if isinstance(a, float) and isinstance(b, float):
            r = self.cfl(op, a, b)
            return f32r(r) if t.k == 'float' else r
        A = self.zfp(a, t); B = self.zfp(b, t)
        if op == 'fadd': return z3.fpAdd(RNE, A, B)
        if op == 'fsub': return z3.fpSub(RNE, A, B)
        if op == 'fmul': return z3.fpMul(RNE, A, B)
        if op == 'fdiv': return z3.fpDiv(RNE, A, B)
        raise Unsupported(op)
    def cfl(self, op, a, b):
        try:
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv':
                if b == 0:
                    if a == 0 or a != a: return math.nan
                    return math.copysign(math.inf, a) * math.copysign(1, b)
                return a / b
            if op == 'frem':
                return math.fmod(a, b) if b != 0 and not math.isinf(a) else math.nan
        except OverflowError:
            return math.inf
        raise Unsupported(op)
    def zfp(self, a, t):
        if isinstance(a, float): return z3.FPVal(a, F64 if t.k == 'double' else F32)
        return a

    def rsgn(self, a):
        """sign of RF (forks): -1,0,1"""
        p = sign_poly(a)
        if a.nn and not p.is_const(): self.note_nn(a)
        if self.decide_rc(RC(p, ZER)): return 0
        return 1 if self.decide_rc(RC(p, POS)) else -1
    def note_nn(self, a):
        p = sign_poly(a)
        # sign_poly(a) has sign of a unless zero-den; a>=0 known structurally
        q, sg = self.norm(p)
        al = self.sign_allowed(q)
        na = al & ((ZER | POS) if sg > 0 else (ZER | NEG))
        if na != al: self.st.signs[q] = na

    def rbin(self, op, a, b, t):
        fa, fb = isinstance(a, float), isinstance(b, float)
        if not fa and not isinstance(a, RF): raise Unsupported('real op on %r' % (type(a),))
        if not fb and not isinstance(b, RF): raise Unsupported('real op on %r' % (type(b),))
        if not fa and not fb:
            if op == 'fadd': return radd(a, b)
            if op == 'fsub': return rsub(a, b)
            if op == 'fmul': return rmul(a, b)
            if op == 'fdiv':
                if b.is_const():
                    if b.const() == 0:
                        s = self.rsgn(a)
                        return math.nan if s == 0 else math.inf * s
                    return rdiv(a, b)
                p = sign_poly(b)
                if b.nn: self.note_nn(b)
                if self.decide_rc(RC(b.n, ZER)):
                    s = self.rsgn(a)
                    self.st.aux['divzero'] = True
                    return math.nan if s == 0 else math.inf * s
                return rdiv(a, b)
            raise Unsupported('frem on reals')
        # specials
        if fa and fb: return self.cfl(op, a, b)
        x = a if fa else b
        y = b if fa else a        # RF
        if x != x: return math.nan
        if op == 'fadd': return x
        if op == 'fsub': return x if fa else -x
        if op == 'fmul':
            s = self.rsgn(y)
            if s == 0: return math.nan if math.isinf(x) else RZERO
            if not math.isinf(x):
                if y.is_const() : return self.fconst(x * float(y.const()))
                raise Unsupported('DBL_MAX * symbolic')
            return x * s
        if op == 'fdiv':
            if fa:
                s = self.rsgn(y)
                if not math.isinf(x):
                    if y.is_const() and y.const() != 0: return self.fconst(x / float(y.const()))
                    if s == 0: return math.copysign(math.inf, x)
                    raise Unsupported('DBL_MAX / symbolic')
                return x * (s if s else 1)
            if math.isinf(x): return RZERO
            raise Unsupported('symbolic / DBL_MAX')
        raise Unsupported('special ' + op)

    def fcmp(self, pred, a, b, t):
        if a is UNDEF or b is UNDEF: return UNDEF
        if pred == 'true': return 1
        if pred == 'false': return 0
        fa, fb = isinstance(a, float), isinstance(b, float)
        if fa and fb:
            nan = a != a or b != b
            return int(fcmp_c(pred, a, b, nan))
        if self.mode == 'real':
            if fa or fb:
                x = a if fa else b
                if x != x: return int(pred[0] == 'u')
                big = 1 if x > 0 else -1
                r = big if fa else -big     # sign of a-b
                return int(fcmp_c(pred, r, 0, False))
            if pred == 'ord': return 1
            if pred == 'uno': return 0
            d = rsub(a, b)
            if d.is_const():
                return int(fcmp_c(pred, d.const(), 0, False))
            mask = {'eq': ZER, 'ne': NEG | POS, 'gt': POS, 'ge': POS | ZER, 'lt': NEG, 'le': NEG | ZER}[pred[1:]]
            if d.nn: self.note_nn(d)
            p = sign_poly(d)
            if mask in (ZER, NEG | POS): p = d.n
            return RC(p, mask)
        A = self.zfp(a, t); B = self.zfp(b, t)
        p = pred[1:]
        if pred == 'ord': return self.bsimp(z3.And(z3.Not(z3.fpIsNaN(A)), z3.Not(z3.fpIsNaN(B))))
        if pred == 'uno': return self.bsimp(z3.Or(z3.fpIsNaN(A), z3.fpIsNaN(B)))
        r = {'eq': z3.fpEQ, 'ne': lambda x, y: z3.Not(z3.fpEQ(x, y)), 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}[p](A, B)
        nn = z3.Or(z3.fpIsNaN(A), z3.fpIsNaN(B))
        if pred[0] == 'u': r = z3.Or(r, nn)
        elif p == 'ne': r = z3.And(r, z3.Not(nn))
        return self.bsimp(r)

    def fneg(self, a, t):
        if a is UNDEF: return a
        if isinstance(a, float): return -a
        if isinstance(a, RF): return rneg(a)
        return z3.fpNeg(a)

    # square root etc. in real mode
    def rsqrt(self, a):
        if isinstance(a, float):
            return math.nan if a < 0 or a != a else a
        if a.is_const():
            c = Fraction(a.const())
            if c < 0: return math.nan
            r = poly.frac_sqrt(c)
            if r is not None: return rconst(poly.norm_c(r))
        else:
            if a.nn: self.note_nn(a)
            if self.decide_rc(RC(sign_poly(a), NEG)): return math.nan
        hist = self.st.sqh     # per path: results depend on sign decisions
        fa = self.screen(a) if hist else None
        for fb, b, r in hist:
            if self.same_value(a, fa, b, fb): return r
        r = self.rsqrt_(a)
        if isinstance(r, RF) and not r.is_const(): self.st.sqh = hist + ((fa if fa is not None else self.screen(a), a, r),)
        return r

    def screen(self, a):
        """float value of a at a fixed pseudo-random point (None when undefined)"""
        w = poly._sqrt_cache.setdefault('screen', {})
        for v in a.vars():
            if v not in w and poly.VARS[v].kind in ('in', 'abs'): w[v] = 0.3 + ((v * 2654435761) % 1009) / 577.0 - (v % 3)
        for i in range(len(w), len(poly.VARS)):
            if i not in w and poly.VARS[i].kind in ('in', 'abs'): w[i] = 0.3 + ((i * 2654435761) % 1009) / 577.0 - (i % 3)
        try: return poly.rf_feval(a, w)
        except Exception: return None
    def same_value(self, a, fa, b, fb):
        if a is b or a == b: return True
        if fa is not None and fb is not None and abs(fa - fb) > 1e-6 * (abs(fa) + abs(fb)): return False
        if fa is None or fb is None: return False
        if len(a.n.d) * len(b.n.d) > 40000: return False
        try: return poly.rsub(a, b).n.is_zero()
        except poly.PolyBudget: return False

    def rsqrt_(self, a):
        # n/den -> sqrt(n * odd factors)/prod
        n = a.n; den = rconst(1)
        for f, e in a.den:
            if e % 2: n = n * f
            k = (e + 1) // 2
            fr = RF(f.pow(k))
            # |f^k|
            if k % 2 and not syn_nonneg(f):
                if not self.decide_rc(RC(f, POS | ZER)): fr = rneg(fr)
            den = rmul(den, fr)
        r = self.sqrt_poly(n)
        if den.is_const() and den.const() == 1: r.nn = True; return r
        r = rdiv(r, den); r.nn = True
        return r

    def sqrt_poly(self, p):
        """sqrt of polynomial known >= 0"""
        if p.is_zero(): return RZERO
        k = poly.content(p)
        if k < 0: k = -k
        k = Fraction(k)
        q = p.scale(Fraction(1) / k)
        # rational content
        kn, kd = k.numerator, k.denominator
        # sqrt(kn/kd) = sqrt(kn*kd)/kd
        sq, sf = squarefree(kn * kd)
        outer = rconst(poly.norm_c(Fraction(sq, kd)))
        if sf != 1: q = q.scale(sf)
        if q.is_const():
            c = q.const()
            r = poly.frac_sqrt(Fraction(c))
            if r is not None: return rmul(outer, rconst(poly.norm_c(r)))
        else:
            s = poly.poly_sqrt(q) if sf == 1 else None
            if s is not None:
                rs = RF(s)
                if not self.decide_rc(RC(s, POS | ZER)): rs = rneg(rs)
                rs.nn = True
                r = rmul(outer, rs); r.nn = True
                return r
            mc = poly.mono_content(q)
            pull = tuple((v, e // 2 * 2) for v, e in mc if e >= 2)
            if pull:
                q = poly.exact_div(q, Poly({pull: 1}))
                for v, e in pull:
                    x = rvar(v)
                    if (e // 2) % 2 and not poly.VARS[v].nonneg:
                        if not self.decide_rc(RC(poly.pvar(v), POS | ZER)): x = rneg(x)
                    for _ in range(e // 2): outer = rmul(outer, x)
                r = rmul(outer, self.sqrt_poly(q)); r.nn = True
                return r
        key = q
        v = poly._sqrt_cache.get(key)
        if v is None:
            vi = poly.new_var('sq%d' % len(poly.VARS), 'sqrt', q); vi.nonneg = True
            poly.RULES[vi.id] = q; v = vi.id
            poly._sqrt_cache[key] = v
        r = rmul(outer, rvar(v)); r.nn = True
        return r

    def rabs(self, a):
        if isinstance(a, float): return abs(a)
        if a.nn: return a
        if a.is_const(): return rconst(abs(a.const()))
        if self.decide_rc(RC(sign_poly(a), POS | ZER)):
            r = RF(a.n, a.den, True); return r
        r = rneg(a); r.nn = True
        return r

    def trig(self, which, a):
        if isinstance(a, float): return math.nan if math.isinf(a) or a != a else rconst(poly.norm_c(Fraction(math.sin(a) if which == 'sin' else math.cos(a))))
        if a.n.is_zero(): return RZERO if which == 'sin' else RONE
        if a.is_const():
            # the doubles nearest to multiples of a quarter turn stand for the exact angle
            k = round(float(a.const()) / (PI_D_F / 2))
            if k and abs(k) < 64 and abs(float(a.const()) - k * PI_D_F / 2) < 1e-14: return rconst([0, 1, 0, -1][(k + (which == 'cos')) % 4])
        if len(a.n.d) == 1 and not a.den:
            # sine/cosine of an inverse trigonometric function
            (m, co), = a.n.d.items()
            if co in (1, -1) and len(m) == 1 and m[0][1] == 1 and poly.VARS[m[0][0]].kind == 'fn':
                name, args = poly.VARS[m[0][0]].arg
                r = None
                one = lambda x: self.rsqrt(self.rbin('fsub', RONE, self.rbin('fmul', x, x, DOUBLE), DOUBLE))
                if name == 'acos': r = args[0] if which == 'cos' else one(args[0])
                elif name == 'asin': r = args[0] if which == 'sin' else one(args[0])
                elif name == 'atan':
                    h = self.rsqrt(self.rbin('fadd', RONE, self.rbin('fmul', args[0], args[0], DOUBLE), DOUBLE))
                    r = self.rbin('fdiv', args[0] if which == 'sin' else RONE, h, DOUBLE)
                elif name == 'atan2':
                    y, x = args
                    h = self.rsqrt(self.rbin('fadd', self.rbin('fmul', x, x, DOUBLE), self.rbin('fmul', y, y, DOUBLE), DOUBLE))
                    if self.decide_rc(RC(sign_poly(h), ZER)): r = RZERO if which == 'sin' else RONE
                    else: r = self.rbin('fdiv', y if which == 'sin' else x, h, DOUBLE)
                if r is not None: return rneg(r) if co == -1 and which == 'sin' else r
            if isinstance(co, int) and 2 <= abs(co) <= 4:
                k = abs(co); u = RF(poly.Poly({m: 1}))
                su, cu = self.trig('sin', u), self.trig('cos', u)
                mul = lambda p, q: self.rbin('fmul', p, q, DOUBLE)
                sk, ck = su, cu
                for _ in range(k - 1):
                    sk, ck = self.rbin('fadd', mul(sk, cu), mul(ck, su), DOUBLE), self.rbin('fsub', mul(ck, cu), mul(sk, su), DOUBLE)
                return ck if which == 'cos' else rneg(sk) if co < 0 else sk
        elif len(a.n.d) > 1 and len(a.n.d) <= 3 and not a.den:
            # addition theorem
            its = sorted(a.n.d.items(), key=lambda t: str(t))
            u = RF(poly.Poly(dict(its[:1]))); w = RF(poly.Poly(dict(its[1:])))
            su, cu, sw, cw = self.trig('sin', u), self.trig('cos', u), self.trig('sin', w), self.trig('cos', w)
            mul = lambda p, q: self.rbin('fmul', p, q, DOUBLE)
            if which == 'sin': return self.rbin('fadd', mul(su, cw), mul(cu, sw), DOUBLE)
            return self.rbin('fsub', mul(cu, cw), mul(su, sw), DOUBLE)
        neg = False
        # normalise sign of the argument
        if poly.content(a.n) < 0: a = rneg(a); neg = True
        key = ('trig', a)
        v = poly._sqrt_cache.get(key) or self.same_arg('trig', (a,))
        if v is None:
            s = poly.new_var('sin%d' % len(poly.VARS), 'sin', a)
            c = poly.new_var('cos%d' % len(poly.VARS), 'cos', a)
            s.partner = c.id; c.partner = s.id
            poly.RULES[c.id] = poly.ONE - poly.pvar(s.id) * poly.pvar(s.id)
            v = (s.id, c.id); poly._sqrt_cache[key] = v; self.args_hist('trig', (a,), v)
        if which == 'sin':
            r = rvar(v[0]); return rneg(r) if neg else r
        return rvar(v[1])

    def opaque(self, name, *args):
        """uninterpreted real function of canonical arguments"""
        for a in args:
            if not isinstance(a, RF): raise Unsupported('%s of special' % name)
        key = (name,) + args
        v = poly._sqrt_cache.get(key)
        if v is None: v = self.same_arg(name, args)
        if v is None:
            vi = poly.new_var('%s%d' % (name, len(poly.VARS)), 'fn', (name, args)); v = vi.id
            poly._sqrt_cache[key] = v; self.args_hist(name, args, v)
        return rvar(v)
    def args_hist(self, name, args, v):
        poly._sqrt_cache.setdefault(('hist', name), []).append((tuple(self.screen(a) for a in args), args, v))
    def same_arg(self, name, args):
        hist = poly._sqrt_cache.get(('hist', name))
        if not hist: return None
        fs = tuple(self.screen(a) for a in args)
        for gs, bs, v in hist:
            if all(self.same_value(a, f, b, g) for a, f, b, g in zip(args, fs, bs, gs)): return v
        return None

    def rround(self, kind, a):
        """floor/ceil/trunc/round of a real: fork over integer values"""
        if isinstance(a, float): return a
        if a.is_const():
            c = Fraction(a.const())
            f = math.floor(c)
            if kind == 'floor': r = f
            elif kind == 'ceil': r = -math.floor(-c)
            elif kind == 'trunc': r = f if c >= 0 else -math.floor(-c)
            elif kind == 'round': r = math.floor(c + Fraction(1, 2)) if c >= 0 else -math.floor(-c + Fraction(1, 2))
            elif kind == 'rint':
                r = math.floor(c + Fraction(1, 2))
                if c + Fraction(1, 2) == r and r % 2: r -= 1
            return rconst(r)
        # candidate from witness
        lim = self.opts.get('round_limit', 24)
        st = self.st
        def cell(k):   # condition floor(a)==k as two RCs
            lo = rsub(a, rconst(k)); hi = rsub(a, rconst(k + 1))
            return RC(sign_poly(lo), POS | ZER), RC(sign_poly(hi), NEG)
        tried = 0
        x = None
        if st.wit:
            x = poly.rf_feval(a, st.wit)
        k = math.floor(x) if x is not None and abs(x) < 1e6 else 0
        # deterministic scan upward/downward by deciding comparisons (binary decisions recorded in signs)
        n = 0; L = H = None; step = 1        # known: L <= a < H; galloping, then bisection
        while True:
            lo, hi = cell(k)
            if not self.decide_rc(lo): H = k
            elif not self.decide_rc(hi): L = k + 1
            else: break
            if L is not None and H is not None: k = (L + H - 1) // 2
            elif H is not None: k = H - step; step *= 2
            else: k = L + step - 1; step *= 2
            n += 1
            if n > lim: raise PathEnd('rounding bound')
        f = k
        if kind == 'floor': return rconst(f)
        if kind == 'ceil':
            return rconst(f) if self.decide_rc(RC(rsub(a, rconst(f)).n, ZER)) else rconst(f + 1)
        if kind == 'trunc':
            if f >= 0: return rconst(f)
            return rconst(f) if self.decide_rc(RC(rsub(a, rconst(f)).n, ZER)) else rconst(f + 1)
        if kind in ('round', 'rint'):
            d = rsub(a, rconst(Fraction(2 * f + 1, 2)))
            up = self.decide_rc(RC(sign_poly(d), POS)) or (self.decide_rc(RC(sign_poly(d), ZER)) and (f >= 0 if kind == 'round' else f % 2))
            return rconst(f + 1) if up else rconst(f)
        raise Unsupported(kind)

    # ------------------------------------------------------------------ run loop
    def push(self, f, args, call):
        self.m.body(f)
        fr = Frame(); fr.f = f; fr.blk = f.entry; fr.idx = 0; fr.prev = None; fr.allocas = []; fr.call = call
        fr.regs = {}
        for i, (nm, t) in enumerate(f.params):
            v = args[i]
            fr.regs[nm] = v
        fr.insts = f.blocks[f.entry]
        self.st.frames.append(fr)
        self.setf()
        self.stats.funcs[f.name] = self.stats.funcs.get(f.name, 0) + 1
        if len(self.st.frames) > 400: raise PathEnd('recursion bound')

    def setf(self):
        fr = self.st.frames[-1]
        self.fr = fr; self.regs = fr.regs

    def jump(self, tgt):
        fr = self.fr
        prev = fr.blk
        insts = fr.f.blocks[tgt]
        # phis in parallel
        i = 0; vals = []
        while i < len(insts) and insts[i].op == 'phi':
            ins = insts[i]
            vals.append((ins.dst, self.ev(ins.a[prev]))); i += 1
        for d, v in vals: fr.regs[d] = v
        fr.prev = prev; fr.blk = tgt; fr.idx = i; fr.insts = insts
        self.jumped = True

    def run_state(self, st):
        """run until the path ends or forks. returns list of successor states (empty when done)"""
        self.st = st; self.setf()
        ops = self.ops
        n = 0
        stats = self.stats
        while True:
            fr = self.fr
            ins = fr.insts[fr.idx]
            n += 1
            try:
                self.jumped = False
                v = ops[ins.op](ins)
                if not self.jumped:
                    if ins.dst is not None: fr.regs[ins.dst] = v
                    fr.idx += 1
            except Fork as fk:
                stats.insts += n; st.nsteps += n
                out = []
                alts = fk.alts
                for i, a in enumerate(alts):
                    c = st.fork() if i < len(alts) - 1 else st
                    out.append((c, a))
                # apply after cloning
                for c, a in out: a(c)
                return [c for c, _ in out]
            except Violation as ex:
                stats.insts += n; st.nsteps += n
                self.report(ex, ins)
                return []
            except PathEnd as ex:
                stats.insts += n; st.nsteps += n
                self.end(ex.why)
                return []
            if not st.frames:
                stats.insts += n; st.nsteps += n
                self.end('done')
                return []
            if n & 1023 == 0:
                if self.deadline and time.time() > self.deadline:
                    stats.insts += n; st.nsteps += n
                    self.end('time'); return []
                if st.nsteps + n > self.loop_limit:
                    stats.insts += n; st.nsteps += n
                    self.end('steps'); return []

    def end(self, why):
        st = self.st
        self.stats.cut[why] = self.stats.cut.get(why, 0) + 1
        if why == 'done':
            self.stats.paths += 1
            for r in st.reached: self.stats.reach[r] = self.stats.reach.get(r, 0) + 1
            if self.on_path: self.on_path(st)
        elif (why in ('steps', 'recursion bound') or (why == 'time' and st.nsteps > 300_000)) and self.on_endless: self.on_endless()
    on_path = on_endless = None

    def report(self, ex, ins):
        """a potential violation on the current path: confirm the path condition is satisfiable"""
        st = self.st
        key = (ex.kind, ex.msg)
        self.on_violation(ex, st, ins)

    # ------------------------------------------------------------------ instructions
    def op_nop(self, i): return None
    def op_add(self, i): return self.arith(i)
    op_sub = op_mul = op_udiv = op_sdiv = op_urem = op_srem = op_shl = op_lshr = op_ashr = op_and = op_or = op_xor = op_add
    def arith(self, i):
        a = self.ev(i.a[0]); b = self.ev(i.a[1])
        t = i.ty
        if t.k == 'vector': return [self.ibin(i.op, x, y, t.b.a) for x, y in zip(a, b)]
        if type(a) is int and type(b) is int:
            op = i.op
            if op == 'add': return (a + b) & ((1 << t.a) - 1)
            if op == 'sub': return (a - b) & ((1 << t.a) - 1)
        return self.ibin(i.op, a, b, t.a)
    def op_fadd(self, i):
        a = self.ev(i.a[0]); b = self.ev(i.a[1]); t = i.ty
        if t.k == 'vector': return [self.fbin(i.op, x, y, t.b) for x, y in zip(a, b)]
        return self.fbin(i.op, a, b, t)
    op_fsub = op_fmul = op_fdiv = op_frem = op_fadd
    def op_fneg(self, i):
        a = self.ev(i.a[0])
        if i.ty.k == 'vector': return [self.fneg(x, i.ty.b) for x in a]
        return self.fneg(a, i.ty)
    def op_icmp(self, i):
        pred, a, b = i.a
        a = self.ev(a); b = self.ev(b)
        if i.ty.k == 'vector': return [self.icmp(pred, x, y, i.ty.b) for x, y in zip(a, b)]
        if type(a) is int and type(b) is int:
            if pred == 'eq': return int(a == b)
            if pred == 'ne': return int(a != b)
        return self.icmp(pred, a, b, i.ty)
    def op_fcmp(self, i):
        pred, a, b = i.a
        a = self.ev(a); b = self.ev(b)
        if i.ty.k == 'vector': return [self.fcmp(pred, x, y, i.ty.b) for x, y in zip(a, b)]
        return self.fcmp(pred, a, b, i.ty)
    def op_select(self, i):
        c = self.ev(i.a[0]); a = self.ev(i.a[1]); b = self.ev(i.a[2])
        if isinstance(c, list): return [self.sel(x, y, z, i.ty.b) for x, y, z in zip(c, a, b)]
        return self.sel(c, a, b, i.ty)
    def sel(self, c, a, b, t):
        if type(c) is int: return a if c & 1 else b
        if c is UNDEF:
            if a is b: return a
            return UNDEF
        if self.same(a, b): return a
        if isinstance(c, RC): return a if self.decide(c) else b
        if t.k == 'int' and a is not UNDEF and b is not UNDEF and not isinstance(a, (Ptr, RF, Pieces)) and not isinstance(b, (Ptr, RF, Pieces)):
            if t.a == 1:
                if isinstance(a, RC) or isinstance(b, RC): return a if self.decide(c) else b
                A = z3.BoolVal(bool(a)) if type(a) is int else (a != 0 if isinstance(a, z3.BitVecRef) else a)
                B = z3.BoolVal(bool(b)) if type(b) is int else (b != 0 if isinstance(b, z3.BitVecRef) else b)
                return self.bsimp(z3.If(c, A, B))
            if isinstance(c, z3.BitVecRef): c = c != 0
            return self.sv(z3.If(c, self.tobv(a, t.a), self.tobv(b, t.a)))
        if self.mode == 'fp' and t.k in ('double', 'float') and a is not UNDEF and b is not UNDEF:
            return z3.If(c, self.zfp(a, t), self.zfp(b, t))
        return a if self.decide(c) else b
    def same(self, a, b):
        if a is b: return True
        if type(a) is int and type(b) is int: return a == b
        if isinstance(a, Ptr) and isinstance(b, Ptr): return a == b
        if isinstance(a, RF) and isinstance(b, RF): return a == b
        return False
    def op_trunc(self, i):
        v = self.ev(i.a[0]); t = i.ty
        if t.k == 'vector': return [self.trunc(x, t.b) for x in v]
        return self.trunc(v, t)
    def trunc(self, v, t):
        if v is UNDEF: return v
        if isinstance(v, Ptr): v = self.paddr(v)
        if type(v) is int: return v & ((1 << t.a) - 1)
        if not isinstance(v, z3.BitVecRef):
            if isinstance(v, (RF, float, Pieces, list, z3.FPRef)) :
                if isinstance(v, Pieces): return self.cvt(self.sub(v, v.size, 0, (t.a + 7) // 8), t)
                raise Unsupported('trunc of float bits')
            return v
        if t.a == 1: return self.bsimp(z3.Extract(0, 0, v) == 1)
        return self.sv(z3.Extract(t.a - 1, 0, v))
    def op_zext(self, i):
        v = self.ev(i.a[0]); st_ = i.a[1]; t = i.ty
        if isinstance(v, list): return [self.zext(x, st_.b.a, t.b.a, i.op) for x in v]
        return self.zext(v, st_.a, t.a, i.op)
    op_sext = op_zext
    def zext(self, v, w0, w1, op):
        if v is UNDEF: return v
        if type(v) is int:
            if op == 'sext': return msk(sgn(v, w0), w1)
            return v
        if isinstance(v, RC): v = int(self.decide(v)); return self.zext(v, w0, w1, op)
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(-1 if op == 'sext' else 1, w1), z3.BitVecVal(0, w1))
        if not isinstance(v, z3.BitVecRef): v = self.tobv(v, w0)
        return self.sv(z3.SignExt(w1 - w0, v) if op == 'sext' else z3.ZeroExt(w1 - w0, v))
    def op_fpext(self, i):
        v = self.ev(i.a[0])
        if isinstance(v, list): return [self.fpext(x, i.ty.b) for x in v]
        return self.fpext(v, i.ty)
    def fpext(self, v, t):
        if self.mode == 'fp' and isinstance(v, z3.FPRef): return z3.fpFPToFP(RNE, v, F64 if t.k == 'double' else F32)
        if self.mode == 'fp' and isinstance(v, float) and t.k == 'float': return f32r(v)
        return v
    op_fptrunc = op_fpext
    def op_sitofp(self, i):
        v = self.ev(i.a[0]); t0 = i.a[1]
        if isinstance(v, list): return [self.itof(x, t0.b, i.ty.b, i.op) for x in v]
        return self.itof(v, t0, i.ty, i.op)
    op_uitofp = op_sitofp
    def itof(self, v, t0, t, op):
        if v is UNDEF: return v
        if type(v) is not int:
            if self.mode == 'real' or not isinstance(v, z3.BitVecRef):
                v = self.concretize(self.tobv(v, t0.a), t0.a)
            else:
                s = F64 if t.k == 'double' else F32
                return z3.fpSignedToFP(RNE, v, s) if op == 'sitofp' else z3.fpUnsignedToFP(RNE, v, s)
        x = sgn(v, t0.a) if op == 'sitofp' else v
        if self.mode == 'real': return rconst(x)
        x = float(x)
        return f32r(x) if t.k == 'float' else x
    def op_fptosi(self, i):
        v = self.ev(i.a[0])
        if isinstance(v, list): return [self.ftoi(x, i.a[1].b, i.ty.b, i.op) for x in v]
        return self.ftoi(v, i.a[1], i.ty, i.op)
    op_fptoui = op_fptosi
    def ftoi(self, v, t0, t, op):
        if v is UNDEF: return v
        if isinstance(v, float):
            if v != v or math.isinf(v) or abs(v) > 1e19: return UNDEF
            return msk(int(v), t.a)
        if isinstance(v, RF):
            r = self.rround('trunc', v)
            return msk(int(r.const()), t.a)
        return z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(t.a)) if op == 'fptosi' else z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(t.a))
    def op_ptrtoint(self, i):
        v = self.ev(i.a[0])
        if i.ty.a < 64 and isinstance(v, Ptr): return self.trunc(self.paddr(v), i.ty)
        return v
    def op_inttoptr(self, i): return self.toptr(self.ev(i.a[0]))
    def op_bitcast(self, i):
        v = self.ev(i.a[0]); t0 = i.a[1]; t = i.ty
        if v is UNDEF: return self.undef(t)
        if t.k == 'vector':
            es = self.m.sizeof(t.b); n = self.m.sizeof(t0) if t0.k != 'vector' else self.m.sizeof(t0.b) * t0.a
            if isinstance(v, list) and len(v) == t.a: return [self.cvt(x, t.b) for x in v]
            return [self.cvt(self.sub(v, n, k * es, es), t.b) for k in range(t.a)]
        if t0.k == 'vector':
            es = self.m.sizeof(t0.b)
            parts = [(k * es, es, x) for k, x in enumerate(v)]
            if all(type(x) is int or isinstance(x, z3.BitVecRef) for x in v): return self.cvt(self.bits(Pieces(parts, es * len(v)), es * len(v) * 8), t)
            if len(v) == 1: return self.cvt(v[0], t)
            return Pieces(parts, es * len(v))
        if t.k in ('double', 'float'): return self.cvt(v, t)
        if t.k == 'int' and t0.k in ('double', 'float'):
            if isinstance(v, RF) and not v.is_const(): return v
            return self.bits(v, t.a)
        return v
    op_addrspacecast = op_bitcast
    def op_freeze(self, i):
        v = self.ev(i.a[0])
        return v
    def op_alloca(self, i):
        n = self.concretize(self.ev(i.a[0]), 64)
        p = self.alloc(self.m.sizeof(i.ty) * n, 'stack', i.dst)
        self.fr.allocas.append(p.o)
        return p
    def op_load(self, i):
        p = self.ev(i.a[0])
        return self.load(p, i.ty)
    def op_store(self, i):
        v = self.ev(i.a[0]); p = self.ev(i.a[1])
        self.store(p, v, i.ty)
    def op_getelementptr(self, i):
        return self.gep(i.ty, [(self.ev(o), t) for o, t in i.a])
    def op_phi(self, i): raise Unsupported('phi')
    def op_jmp(self, i): self.jump(i.a)
    def op_br(self, i):
        c = self.ev(i.a[0])
        self.jump(i.a[1] if self.decide(c) else i.a[2])
    def op_switch(self, i):
        v = self.ev(i.a[0])
        if v is UNDEF: raise Violation('uninit', 'switch on uninitialised value')
        if isinstance(v, RC): v = int(self.decide(v))
        for c, l in i.a[2]:
            if type(v) is int:
                if v == c: return self.jump(l)
            else:
                if isinstance(v, z3.BoolRef): vv = self.tobv(v, 8)
                else: vv = v
                if self.decide(vv == c): return self.jump(l)
        self.jump(i.a[1])
    def op_unreachable(self, i): raise Violation('ub', 'unreachable code executed')
    def op_ret(self, i):
        v = self.ev(i.a) if i.a is not None else None
        self.popframe()
        if not self.st.frames:
            self.jumped = True; return
        call = self.retcall
        fr = self.fr
        if call is None:
            self.jumped = True; return
        if call.dst is not None: fr.regs[call.dst] = v
        if call.a[2] is not None: self.jump(call.a[2])     # invoke normal dest
        else: fr.idx += 1
        self.jumped = True
    def popframe(self):
        fr = self.st.frames.pop()
        for o in fr.allocas: self.st.mem.pop(o, None)
        self.retcall = fr.call
        if self.st.frames: self.setf()
    def op_extractvalue(self, i):
        v = self.ev(i.a[0])
        for k in i.a[1]:
            if v is UNDEF: return UNDEF
            v = v[k]
        return v
    def op_insertvalue(self, i):
        v = self.ev(i.a[0]); e = self.ev(i.a[1])
        if v is UNDEF: v = self.undef(i.ty)
        def ins(a, idx):
            a = list(a)
            if len(idx) == 1: a[idx[0]] = e
            else: a[idx[0]] = ins(a[idx[0]], idx[1:])
            return a
        return ins(v, i.a[2])
    def op_extractelement(self, i):
        v = self.ev(i.a[0]); k = self.concretize(self.ev(i.a[1]), 64)
        if v is UNDEF: return v
        return v[k]
    def op_insertelement(self, i):
        v = self.ev(i.a[0]); e = self.ev(i.a[1]); k = self.concretize(self.ev(i.a[2]), 64)
        v = list(v) if v is not UNDEF else [UNDEF] * i.ty.a
        v[k] = e
        return v
    def op_shufflevector(self, i):
        v, w, m, n = i.a
        v = self.ev(v); w = self.ev(w)
        if v is UNDEF: v = [UNDEF] * n
        if w is UNDEF: w = [UNDEF] * n
        allv = list(v) + list(w)
        mk = self.const(m, None) if m[0] != 'z' else [0] * i.ty.a
        return [UNDEF if x is UNDEF else allv[x] for x in mk]
    def op_atomicrmw(self, i):
        o, a, v = i.a
        p = self.ev(a); x = self.ev(v)
        old = self.load(p, i.ty)
        if o == 'xchg': n = x
        elif o in ('add', 'sub', 'and', 'or', 'xor'): n = self.ibin(o, old, x, i.ty.a)
        else: raise Unsupported('atomicrmw ' + o)
        self.store(p, n, i.ty)
        return old
    def op_cmpxchg(self, i):
        a, c, v = i.a
        p = self.ev(a); old = self.load(p, i.ty)
        eq = self.decide(self.icmp('eq', old, self.ev(c), i.ty))
        if eq: self.store(p, self.ev(v), i.ty)
        return [old, int(eq)]
    def op_asm(self, i): return None

    # exceptions
    def op_landingpad(self, i):
        exc = self.st.exc
        clauses, cleanup = i.a
        sel = 0
        for k, c in clauses:
            if k == 'catch':
                if c[0] == 'n': sel = self.typeid(None); break
                tp = self.ev(c)
                if self.exc_match(exc['ti'], tp): sel = self.typeid(tp); break
            else: sel = 0
        return [exc['obj'], sel]
    def typeid(self, tp):
        if tp is None: return 0x7fff
        return 1 + tp.o % 0x7000
    def exc_match(self, ti, want):
        if want is None: return True
        seen = set(); work = [ti]
        while work:
            t = work.pop()
            if t == want: return True
            if t.o in seen: continue
            seen.add(t.o)
            o = self.getobj(t.o)
            b = o.cells.get(16)
            nm = self.tiname(t)
            if b is not None and isinstance(b[1], Ptr): work.append(b[1])
            if nm in STD_BASE:
                for base in STD_BASE[nm]:
                    if base in self.m.globals: work.append(self.gptr(base))
            else:
                # vmi: bases at 24, 40...
                for off in (24, 40, 56):
                    c = o.cells.get(off)
                    if c is not None and isinstance(c[1], Ptr): work.append(c[1])
        return False
    def tiname(self, p):
        for k, v in self.gobj.items():
            if v == p.o: return k
        return None
    def throw(self, obj, ti):
        self.st.exc = {'obj': obj, 'ti': ti}
        self.unwind(True)
    def unwind(self, from_call):
        """current frame's current instruction is a call/invoke raising"""
        while True:
            fr = self.fr
            ins = fr.insts[fr.idx]
            if ins.op in ('call', 'invoke') and ins.a[3] is not None:
                self.jump(ins.a[3]); self.jumped = True
                # landing pad executes; but skip pads that do not catch & have no cleanup
                return
            self.popframe()
            if not self.st.frames:
                ti = self.st.exc['ti']
                raise Violation('exception', 'uncaught exception %s' % (self.tiname(ti),))
    def op_resume(self, i):
        # continue unwinding in caller
        self.popframe()
        if not self.st.frames: raise Violation('exception', 'uncaught exception')
        self.unwind(True)

    # calls
    def op_call(self, i):
        callee, args, norm, unw = i.a
        if callee[0] == 'g': name = callee[1]
        else:
            p = self.ev(callee)
            if p is UNDEF: raise Violation('uninit', 'call through uninitialised pointer')
            if not isinstance(p, Ptr) or p.o not in self.objfn: raise Violation('memory', 'call through bad pointer')
            name = self.objfn[p.o]
        if name in self.m.aliases:
            a = self.m.aliases[name]
            if a[0] == 'g': name = a[1]
        f = self.m.funcs.get(name)
        if f is not None and f.lines is not None and name not in OVERRIDE:
            vals = []
            for v, t, byval in args:
                x = self.ev(v)
                if byval is not None:
                    x = self.copy_byval(x, byval)
                vals.append(x)
            self.push(f, vals, i)
            if args and any(b is not None for _, _, b in args):
                self.fr.allocas.extend(x.o for (_, _, b), x in zip(args, vals) if b is not None)
            self.jumped = True
            return
        import stubs
        h = stubs.lookup(name)
        if h is None: raise Unsupported('external function ' + name)
        vals = [self.ev(v) if v is not None else None for v, t, b in args]
        r = h(self, vals, i)
        if self.jumped: return
        if i.op == 'invoke':
            if i.dst is not None: self.fr.regs[i.dst] = r
            self.jump(norm)
            return
        return r
    op_invoke = op_call
    def copy_byval(self, p, t):
        n = self.m.sizeof(t)
        q = self.alloc(n, 'stack', 'byval')
        self.memcpy(q, p, n)
        return q

    def memcpy(self, d, s, n):
        if n == 0: return
        so, soff = self.addr(s, n, False)
        do, doff = self.addr(d, n, True)
        src = self.getobj(so)
        items = []
        pos = soff; end = soff + n
        cells = src.cells
        # find cells within range
        if n <= 4 * len(cells) + 64: ks = [k for k in range(soff, end) if k in cells]
        else: ks = sorted(k for k in cells if soff <= k < end)
        aligned = True
        for b in range(1, 33):
            c = cells.get(soff - b)
            if c is not None:
                if c[0] > b: aligned = False
                break
        if ks and ks[-1] + cells[ks[-1]][0] > end: aligned = False
        if aligned:
            items = [(k - soff, cells[k]) for k in ks]
            fill = src.fill
            dst = self.wobj(do)
            self.clear(dst, doff, n)
            dc = dst.cells
            for k, c in items: dc[doff + k] = c
            if fill is not dst.fill and not (type(fill) is int and fill == dst.fill):
                # fill gaps explicitly
                covered = 0
                pos = 0
                for k, c in items + [(n, None)]:
                    g = pos
                    while g < k:
                        step = 8 if (g % 8 == 0 and k - g >= 8) else 1
                        dc[doff + g] = (step, fill); g += step
                    pos = k + (c[0] if c else 0)
        else:
            v = self.rd(so, soff, n)
            self.wr(do, doff, n, v)

def flip(mask): return (mask & ZER) | (POS if mask & NEG else 0) | (NEG if mask & POS else 0)

def squarefree(n):
    """n = s^2 * f"""
    s = 1; f = 1; d = 2; m = n
    while d * d <= m and d < 10000:
        e = 0
        while m % d == 0: m //= d; e += 1
        s *= d ** (e // 2)
        if e % 2: f *= d
        d += 1
    r = math.isqrt(m)
    if r * r == m: s *= r
    else: f *= m
    return s, f

def z3frac(z):
    if z3.is_algebraic_value(z): z = z.approx(20)
    try: return Fraction(z.numerator_as_long(), z.denominator_as_long())
    except Exception: return Fraction(0)

def cmp_s(pred, a, b):
    p = pred[-2:] if pred not in ('eq', 'ne') else pred
    if pred == 'eq': return a == b
    if pred == 'ne': return a != b
    if p == 'lt': return a < b
    if p == 'le': return a <= b
    if p == 'gt': return a > b
    return a >= b

def fcmp_c(pred, a, b, nan):
    if pred == 'ord': return not nan
    if pred == 'uno': return nan
    if nan: return pred[0] == 'u'
    p = pred[1:]
    return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p]

OVERRIDE = set()
STD_BASE = {
    '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'], '_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'], '_ZTISt12domain_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt14overflow_error': ['_ZTISt13runtime_error', '_ZTISt9exception'], '_ZTISt11range_error': ['_ZTISt13runtime_error', '_ZTISt9exception'],
}
