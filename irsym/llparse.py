"""Parser for textual LLVM IR (LLVM 18, opaque pointers), function bodies parsed lazily."""
import re, struct

TOK = re.compile(r'''
  (?P<ws>\s+)|
  (?P<str>c?"(?:[^"\\]|\\.)*")|
  (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))|
  (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))|
  (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))|
  (?P<meta>![-a-zA-Z$._0-9]*)|
  (?P<attr>\#\d+)|
  (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)|
  (?P<flt>-?\d+\.\d*(?:e[+-]?\d+)?)|
  (?P<int>-?\d+)|
  (?P<dots>\.\.\.)|
  (?P<word>[a-zA-Z_][\w.]*)|
  (?P<sym>[\[\]{}<>(),=*:|])
''', re.X)

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos] == ';': break
            raise SyntaxError("tok: %r" % s[pos:pos+40])
        pos = m.end()
        k = m.lastgroup
        if k == 'ws': continue
        out.append((k, m.group()))
    return out

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b', 'size', 'align', 'offs')
    def __init__(s, k, a=None, b=None):
        s.k = k; s.a = a; s.b = b; s.size = None; s.align = None; s.offs = None
    def __repr__(s):
        return '%s(%s)' % (s.k, s.a if s.a is not None else '')

VOID = Ty('void'); PTR = Ty('ptr'); LABEL = Ty('label'); META = Ty('meta')
_ints = {}
def IntTy(w):
    if w not in _ints: _ints[w] = Ty('int', w)
    return _ints[w]
FLOAT = Ty('float', 32); DOUBLE = Ty('double', 64); FP80 = Ty('x86_fp80', 80); HALF=Ty('half',16)
I1 = IntTy(1); I8 = IntTy(8); I32 = IntTy(32); I64 = IntTy(64)

class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'text', 'fn')
    def __init__(s, op, dst, ty, a, text):
        s.op = op; s.dst = dst; s.ty = ty; s.a = a; s.text = text; s.fn = None

class Func:
    def __init__(s, name):
        s.name = name; s.params = []; s.ret = None; s.lines = None; s.blocks = None
        s.order = None; s.vararg = False; s.param_byval = {}; s.entry = None

class Global:
    def __init__(s, name):
        s.name = name; s.ty = None; s.init_toks = None; s.const = False; s.external = False; s.init = None; s.parsed=False; s.tls=False

LINKAGE = set('private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr external dso_local dso_preemptable hidden protected default dllimport dllexport thread_local unnamed_addr local_unnamed_addr externally_initialized'.split())
PARAM_ATTRS = set('zeroext signext inreg noalias nocapture nofree nest returned nonnull noundef immarg readonly readnone writeonly swiftself swifterror noinline alwaysinline allocalign allocptr inalloca writable dead_on_unwind'.split())
PARAM_ATTRS_ARG = set('align dereferenceable dereferenceable_or_null byval sret byref preallocated elementtype initializes range nofpclass captures'.split())
FMF = set('nnan ninf nsz arcp contract afn reassoc fast'.split())

# operand descriptors: ('l', name) local ; ('c', value, ty) constant
class P:
    def __init__(s, toks, mod):
        s.t = toks; s.i = 0; s.m = mod
    def peek(s, k=0):
        return s.t[s.i + k][1] if s.i + k < len(s.t) else None
    def peekk(s):
        return s.t[s.i][0] if s.i < len(s.t) else None
    def next(s):
        x = s.t[s.i]; s.i += 1; return x[1]
    def eat(s, v):
        if s.peek() == v:
            s.i += 1; return True
        return False
    def expect(s, v):
        x = s.next()
        if x != v:
            raise SyntaxError("expected %r got %r in %r" % (v, x, ' '.join(t[1] for t in s.t)[:300]))
    def skip_words(s, words):
        while s.peek() in words: s.i += 1
    def type(s):
        k, v = s.t[s.i]; s.i += 1
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit(): t = IntTy(int(v[1:]))
            elif v == 'void': t = VOID
            elif v == 'ptr': t = PTR
            elif v == 'double': t = DOUBLE
            elif v == 'float': t = FLOAT
            elif v == 'x86_fp80': t = FP80
            elif v == 'half': t = HALF
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v == 'opaque': t = Ty('opaque')
            elif v == 'token': t = Ty('token')
            else: raise SyntaxError("type %r" % v)
        elif v == '[':
            n = int(s.next()); s.expect('x'); e = s.type(); s.expect(']'); t = Ty('array', n, e)
        elif v == '{':
            fs = []
            if not s.eat('}'):
                while True:
                    fs.append(s.type())
                    if s.eat('}'): break
                    s.expect(',')
            t = Ty('struct', fs, False)
        elif v == '<':
            if s.peek() == '{':
                s.next(); fs = []
                if not s.eat('}'):
                    while True:
                        fs.append(s.type())
                        if s.eat('}'): break
                        s.expect(',')
                s.expect('>'); t = Ty('struct', fs, True)
            else:
                n = int(s.next()); s.expect('x'); e = s.type(); s.expect('>'); t = Ty('vector', n, e)
        elif k == 'loc':
            t = s.m.named(v[1:].strip('"'))
        else:
            raise SyntaxError("type %r" % v)
        # function type suffix
        while s.peek() == '(' and t is not None:
            # function type: T (args)
            s.next(); args = []; va = False
            if not s.eat(')'):
                while True:
                    if s.eat('...'): va = True
                    else: args.append(s.type())
                    if s.eat(')'): break
                    s.expect(',')
            t = Ty('func', t, (args, va))
        if s.peek() == 'addrspace' :
            s.next(); s.expect('('); s.next(); s.expect(')')
        while s.peek() == '*': s.next(); t = PTR
        return t
    def attrs(s):
        """skip param attributes; returns dict"""
        d = {}
        while True:
            v = s.peek()
            if v in PARAM_ATTRS: s.i += 1
            elif v in PARAM_ATTRS_ARG:
                s.i += 1
                if s.peek() == '(':
                    depth = 0; j = s.i
                    if v in ('byval', 'sret', 'elementtype', 'byref'):
                        s.next(); d[v] = s.type(); s.expect(')')
                    else:
                        while True:
                            x = s.next()
                            if x == '(': depth += 1
                            if x == ')':
                                depth -= 1
                                if depth == 0: break
                elif v == 'align': s.next()
            elif s.peekk() == 'str':   # "attr"="val"
                s.i += 1
                if s.eat('='): s.i += 1
            else: return d
    def typed_value(s):
        t = s.type(); s.attrs()
        return s.value(t), t
    def value(s, t):
        k, v = s.t[s.i]; s.i += 1
        if k == 'loc': return ('l', v[1:].strip('"'))
        if k == 'glob': return ('g', v[1:].strip('"'))
        if k == 'int':
            if t.k in ('float', 'double'): return ('c', float(v))
            return ('c', int(v) & ((1 << t.a) - 1))
        if k == 'flt': return ('f', float(v))
        if k == 'hex':
            if v[2] in 'KLMHR':
                if v[2] == 'K':
                    x = int(v[3:], 16); sign = x >> 79; ex = (x >> 64) & 0x7fff; man = x & ((1<<64)-1)
                    if ex == 0x7fff: return ('f', float('inf') * (-1 if sign else 1))
                    from fractions import Fraction
                    val = Fraction(man) * (Fraction(2) ** (ex - 16383 - 63))
                    return ('f80', -val if sign else val)
                raise SyntaxError('hexfloat')
            return ('f', struct.unpack('>d', struct.pack('>Q', int(v, 16)))[0])
        if v == 'true': return ('c', 1)
        if v == 'false': return ('c', 0)
        if v == 'null': return ('n',)
        if v in ('undef', 'poison'): return ('u', t)
        if v in ('zeroinitializer',): return ('z', t)
        if v == 'none': return ('z', t)
        if k == 'str':
            body = v[2:-1]
            bs = bytearray(); i = 0
            while i < len(body):
                if body[i] == '\\':
                    if body[i+1] == '\\': bs.append(92); i += 2
                    else: bs.append(int(body[i+1:i+3], 16)); i += 3
                else: bs.append(ord(body[i])); i += 1
            return ('agg', [('c', b) for b in bs], t)
        if v == '[' or v == '{':
            end = ']' if v == '[' else '}'
            el = []
            if not s.eat(end):
                while True:
                    x, tt = s.typed_value(); el.append(x)
                    if s.eat(end): break
                    s.expect(',')
            return ('agg', el, t)
        if v == '<':
            if s.peek() == '{':
                s.next(); el = []
                if not s.eat('}'):
                    while True:
                        x, tt = s.typed_value(); el.append(x)
                        if s.eat('}'): break
                        s.expect(',')
                s.expect('>')
                return ('agg', el, t)
            el = []
            while True:
                x, tt = s.typed_value(); el.append(x)
                if s.eat('>'): break
                s.expect(',')
            return ('agg', el, t)
        if v == 'getelementptr':
            s.skip_words(('inbounds', 'nuw', 'nusw'))
            if s.peek() == 'inrange':
                s.next(); s.expect('(')
                while s.next() != ')': pass
            s.expect('('); bt = s.type(); s.expect(',')
            ops = []
            while True:
                s.eat('inrange')
                ops.append(s.typed_value())
                if s.eat(')'): break
                s.expect(',')
            return ('gep', bt, ops)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'addrspacecast'):
            s.expect('('); x, tt = s.typed_value(); s.expect('to'); t2 = s.type(); s.expect(')')
            return ('cast', v, x, tt, t2)
        if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr'):
            s.skip_words(('nuw', 'nsw'))
            s.expect('('); x, tt = s.typed_value(); s.expect(','); y, t2 = s.typed_value(); s.expect(')')
            return ('bin', v, x, y, tt)
        if v == 'dso_local_equivalent' or v == 'no_cfi':
            return s.value(t)
        raise SyntaxError("value %r in %s" % (v, ' '.join(x[1] for x in s.t)[:300]))

class Module:
    def __init__(self, text):
        self.types = {}      # name -> Ty
        self.type_src = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        self.parse_top(text)

    def named(self, name):
        t = self.types.get(name)
        if t is None:
            src = self.type_src.get(name)
            t = Ty('struct', [], False)
            self.types[name] = t
            if src is not None:
                x = P(tokenize(src), self).type()
                t.k = x.k; t.a = x.a; t.b = x.b
            else:
                t.k = 'opaque'
        return t

    def parse_top(self, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if not l or l[0] in ';!' or l.startswith(('source_filename', 'target', 'attributes', '$', 'module asm', 'uselistorder')):
                i += 1; continue
            if l[0] == '%':
                m = re.match(r'%("[^"]*"|[-\w.$]+) = type (.*)$', l)
                self.type_src[m.group(1).strip('"')] = m.group(2)
                i += 1; continue
            if l[0] == '@':
                self.parse_global(l); i += 1; continue
            if l.startswith('declare'):
                self.parse_fhead(l); i += 1; continue
            if l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                f = self.parse_fhead(l)
                f.lines = lines[i+1:j]
                i = j + 1; continue
            i += 1

    def parse_global(self, l):
        l = re.sub(r'(, ![\w.]+ !\d+)+$', '', l)
        m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', l)
        name = m.group(1).strip('"'); rest = m.group(2)
        p = P(tokenize(rest), self)
        g = Global(name)
        while True:
            v = p.peek()
            if v in LINKAGE:
                if v in ('external', 'extern_weak'): g.external = True
                if v == 'thread_local':
                    g.tls = True
                p.next()
                if v == 'thread_local' and p.peek() == '(':
                    while p.next() != ')': pass
            elif v == 'addrspace':
                p.next(); p.next(); p.next(); p.next()
            else: break
        k = p.next()
        if k == 'alias':
            t = p.type(); p.expect(',')
            self.aliases[name] = p.typed_value()[0]
            return
        if k == 'ifunc': return
        g.const = (k == 'constant')
        g.ty = p.type()
        if not g.external:
            g.init_toks = p
        self.globals[name] = g

    def ginit(self, g):
        if not g.parsed:
            g.parsed = True
            if g.init_toks is not None:
                g.init = g.init_toks.value(g.ty)
                g.init_toks = None
        return g.init

    def parse_fhead(self, l):
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
        name = m.group(1).strip('"')
        f = Func(name)
        # return type: tokens before name
        head = l[:m.start()]
        head = re.sub(r'^(define|declare)\s+', '', head)
        p = P(tokenize(head), self)
        while True:
            v = p.peek()
            if v in LINKAGE or v in ('fastcc', 'ccc', 'coldcc', 'tailcc') : p.next()
            elif v == 'cc': p.next(); p.next()
            else:
                j = p.i; p.attrs()
                if p.i == j: break
        f.ret = p.type()
        toks = tokenize(l[m.end()-1:].split(' personality ')[0].rstrip('{ '))
        p = P(toks, self)
        p.expect('(')
        idx = 0
        if not p.eat(')'):
            while True:
                if p.eat('...'): f.vararg = True
                else:
                    t = p.type(); at = p.attrs()
                    nm = None
                    if p.peekk() == 'loc': nm = p.next()[1:].strip('"')
                    else: nm = str(idx)
                    if 'byval' in at: f.param_byval[idx] = at['byval']
                    f.params.append((nm, t)); idx += 1
                if p.eat(')'): break
                p.expect(',')
        self.funcs[name] = f
        return f

    # ---------------------------------------------------------- layout
    def sizeof(self, t):
        if t.size is None: self.layout(t)
        return t.size
    def alignof(self, t):
        if t.size is None: self.layout(t)
        return t.align
    def layout(self, t):
        k = t.k
        if k == 'int':
            b = (t.a + 7) // 8
            s = 1
            while s < b: s *= 2
            t.size = s if t.a <= 64 else 8 * ((t.a + 63) // 64); t.align = min(s, 16) if t.a <= 64 else 16
            if t.a == 128: t.size = 16
        elif k == 'ptr': t.size = 8; t.align = 8
        elif k == 'double': t.size = 8; t.align = 8
        elif k == 'float': t.size = 4; t.align = 4
        elif k == 'half': t.size = 2; t.align = 2
        elif k == 'x86_fp80': t.size = 16; t.align = 16
        elif k == 'array':
            es = self.sizeof(t.b); t.size = es * t.a; t.align = self.alignof(t.b)
        elif k == 'vector':
            es = self.sizeof(t.b); t.size = es * t.a
            s = 1
            while s < t.size: s *= 2
            t.size = s; t.align = s
        elif k == 'struct':
            off = 0; al = 1; offs = []
            for f in t.a:
                fa = 1 if t.b else self.alignof(f)
                off = (off + fa - 1) // fa * fa
                offs.append(off); off += self.sizeof(f); al = max(al, fa)
            off = (off + al - 1) // al * al
            t.size = off; t.align = al; t.offs = offs
        elif k == 'opaque': t.size = 0; t.align = 1
        elif k in ('func', 'void', 'label','token'): t.size = 8; t.align = 8
        else: raise SyntaxError('layout %s' % k)

    # ---------------------------------------------------------- bodies
    def body(self, f):
        if f.blocks is not None: return
        blocks = {}; cur = None; order = []
        lines = f.lines; i = 0; n = len(lines)
        first = True
        lab = re.compile(r'^("[^"]*"|[-a-zA-Z$._0-9]+):')
        nargs = sum(1 for (nm, t) in f.params if nm.isdigit())
        while i < n:
            l = lines[i]
            if not l.strip() or l.lstrip().startswith(';'):
                i += 1; continue
            if not l.startswith(' '):
                m = lab.match(l)
                name = m.group(1).strip('"')
                cur = []; blocks[name] = cur; order.append(name)
                i += 1; first = False; continue
            if first:
                name = str(nargs); cur = []; blocks[name] = cur; order.append(name); first = False
            s = l.strip()
            i += 1
            if s.startswith(('switch ',)) or ' switch ' in s[:20]:
                while not s.rstrip().endswith(']') and ']' not in s.split('[', 1)[1]:
                    s += ' ' + lines[i].strip(); i += 1
            if s.startswith('invoke ') or re.match(r'%\S+ = invoke ', s) or re.match(r'%"[^"]*" = invoke ', s):
                s += ' ' + lines[i].strip(); i += 1
            if ' landingpad ' in s or s.startswith('landingpad'):
                while i < n and lines[i].strip().split(' ')[0] in ('catch', 'cleanup', 'filter'):
                    s += ' ' + lines[i].strip(); i += 1
            if s.startswith(('tail call void @llvm.dbg', 'call void @llvm.dbg', 'call void @llvm.experimental.noalias')): continue
            cur.append(self.inst(s))
        f.blocks = blocks; f.order = order; f.entry = order[0]

    def inst(self, s):
        text = s
        s = re.sub(r'(, ![\w.]+ !\d+)+\s*$', '', s)
        p = P(tokenize(s), self)
        dst = None
        if p.peekk() == 'loc' and p.peek(1) == '=':
            dst = p.next()[1:].strip('"'); p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'): op = p.next()
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            p.skip_words(('nuw', 'nsw', 'exact', 'disjoint'))
            fl = s
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            nsw = ' nsw ' in text[:60]; nuw = ' nuw ' in text[:60]
            return Inst(op, dst, t, (a, b, nsw, nuw), text)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            p.skip_words(FMF); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Inst(op, dst, t, (a, b), text)
        if op == 'fneg':
            p.skip_words(FMF); t = p.type(); a = p.value(t)
            return Inst(op, dst, t, (a,), text)
        if op in ('icmp', 'fcmp'):
            p.skip_words(FMF); p.eat('samesign')
            pred = p.next(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Inst(op, dst, t, (pred, a, b), text)
        if op == 'select':
            p.skip_words(FMF)
            c, ct = p.typed_value(); p.expect(','); a, t = p.typed_value(); p.expect(','); b, _ = p.typed_value()
            return Inst(op, dst, t, (c, a, b, ct), text)
        if op in ('trunc', 'zext', 'sext', 'fpext', 'fptrunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            p.skip_words(('nneg', 'nuw', 'nsw')); p.skip_words(FMF)
            a, t = p.typed_value(); p.expect('to'); t2 = p.type()
            return Inst(op, dst, t2, (a, t), text)
        if op == 'freeze':
            a, t = p.typed_value(); return Inst(op, dst, t, (a,), text)
        if op == 'alloca':
            p.eat('inalloca'); t = p.type(); cnt = ('c', 1); al = 1
            while p.eat(','):
                if p.peek() == 'align': p.next(); al = int(p.next())
                else: cnt, _ = p.typed_value()
            return Inst(op, dst, t, (cnt,), text)
        if op == 'load':
            p.eat('atomic'); p.eat('volatile'); t = p.type(); p.expect(','); a, _ = p.typed_value()
            return Inst(op, dst, t, (a,), text)
        if op == 'store':
            p.eat('atomic'); p.eat('volatile'); v, t = p.typed_value(); p.expect(','); a, _ = p.typed_value()
            return Inst(op, None, t, (v, a), text)
        if op == 'getelementptr':
            p.skip_words(('inbounds', 'nuw', 'nusw')); bt = p.type(); p.expect(',')
            ops = [p.typed_value()]
            while p.eat(','): ops.append(p.typed_value())
            return Inst(op, dst, bt, tuple(ops), text)
        if op == 'phi':
            p.skip_words(FMF); t = p.type(); inc = {}
            while True:
                p.expect('['); v = p.value(t); p.expect(','); b = p.next()[1:].strip('"'); p.expect(']')
                inc[b] = v
                if not p.eat(','): break
            return Inst(op, dst, t, inc, text)
        if op == 'br':
            if p.peek() == 'label':
                p.next(); return Inst('jmp', None, None, p.next()[1:].strip('"'), text)
            c, _ = p.typed_value(); p.expect(','); p.expect('label'); a = p.next()[1:].strip('"')
            p.expect(','); p.expect('label'); b = p.next()[1:].strip('"')
            return Inst('br', None, None, (c, a, b), text)
        if op == 'switch':
            c, t = p.typed_value(); p.expect(','); p.expect('label'); d = p.next()[1:].strip('"')
            p.expect('['); cases = []
            while not p.eat(']'):
                v, _ = p.typed_value(); p.expect(','); p.expect('label'); cases.append((v[1], p.next()[1:].strip('"')))
            return Inst(op, None, t, (c, d, cases), text)
        if op == 'ret':
            if p.peek() == 'void': return Inst(op, None, VOID, None, text)
            v, t = p.typed_value(); return Inst(op, None, t, v, text)
        if op == 'unreachable': return Inst(op, None, None, None, text)
        if op in ('call', 'invoke'):
            p.skip_words(FMF)
            while True:
                v = p.peek()
                if v in ('fastcc', 'ccc', 'coldcc', 'tailcc'): p.next()
                elif v == 'cc': p.next(); p.next()
                else:
                    j = p.i; p.attrs()
                    if p.i == j: break
            t = p.type()
            if t.k == 'func': t = t.a
            k, v = p.t[p.i]
            if k == 'word' and v == 'asm':
                return Inst('asm', dst, t, None, text)
            callee = p.value(PTR)
            p.expect('('); args = []
            if not p.eat(')'):
                while True:
                    at_t = p.type(); at = p.attrs()
                    if at_t.k == 'meta':
                        # skip metadata arg
                        depth = 0
                        while not (depth == 0 and p.peek() in (',', ')')):
                            x = p.next()
                            if x in '([{<': depth += 1
                            if x in ')]}>': depth -= 1
                        args.append((None, at_t, None))
                    else:
                        args.append((p.value(at_t), at_t, at.get('byval')))
                    if p.eat(')'): break
                    p.expect(',')
            norm = unw = None
            if op == 'invoke':
                while p.peek() != 'to': p.next()
                p.next(); p.expect('label'); norm = p.next()[1:].strip('"')
                p.expect('unwind'); p.expect('label'); unw = p.next()[1:].strip('"')
            return Inst(op, dst, t, (callee, args, norm, unw), text)
        if op == 'landingpad':
            t = p.type(); clauses = []; cleanup = False
            while p.i < len(p.t):
                k = p.next()
                if k == 'cleanup': cleanup = True
                elif k == 'catch': clauses.append(('catch', p.typed_value()[0]))
                elif k == 'filter': clauses.append(('filter', p.typed_value()[0]))
            return Inst(op, dst, t, (clauses, cleanup), text)
        if op == 'resume':
            v, t = p.typed_value(); return Inst(op, None, t, (v,), text)
        if op == 'extractvalue':
            v, t = p.typed_value(); idx = []
            while p.eat(','): idx.append(int(p.next()))
            return Inst(op, dst, t, (v, idx), text)
        if op == 'insertvalue':
            v, t = p.typed_value(); p.expect(','); e, et = p.typed_value(); idx = []
            while p.eat(','): idx.append(int(p.next()))
            return Inst(op, dst, t, (v, e, idx), text)
        if op == 'extractelement':
            v, t = p.typed_value(); p.expect(','); i, _ = p.typed_value()
            return Inst(op, dst, t, (v, i), text)
        if op == 'insertelement':
            v, t = p.typed_value(); p.expect(','); e, _ = p.typed_value(); p.expect(','); i, _ = p.typed_value()
            return Inst(op, dst, t, (v, e, i), text)
        if op == 'shufflevector':
            v, t = p.typed_value(); p.expect(','); w, _ = p.typed_value(); p.expect(','); m, mt = p.typed_value()
            return Inst(op, dst, Ty('vector', mt.a, t.b), (v, w, m, t.a), text)
        if op == 'atomicrmw':
            p.eat('volatile'); o = p.next(); a, _ = p.typed_value(); p.expect(','); v, t = p.typed_value()
            return Inst(op, dst, t, (o, a, v), text)
        if op == 'cmpxchg':
            p.eat('weak'); p.eat('volatile'); a, _ = p.typed_value(); p.expect(','); c, t = p.typed_value(); p.expect(','); v, _ = p.typed_value()
            return Inst(op, dst, t, (a, c, v), text)
        if op == 'fence': return Inst('nop', None, None, None, text)
        raise SyntaxError("inst %s" % text)
