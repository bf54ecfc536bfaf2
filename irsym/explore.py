"""Path explorer for one harness: DFS over symbolic states, solver-decided checks, model -> native replay."""
import os, sys, time, random, subprocess, tempfile, json, traceback, struct
from fractions import Fraction
import z3
import poly, engine, stubs, llparse
from engine import *

def fmt_f(x, kind):
    f = float(x)
    if kind == 'f32': f = f32r(f)
    return f.hex() if f == f and abs(f) != math.inf else repr(f)

def unlimit():
    import resource
    s, h = resource.getrlimit(resource.RLIMIT_DATA)
    resource.setrlimit(resource.RLIMIT_DATA, (h, h))

class Explorer(Engine):
    def __init__(self, mod, mode, opts):
        super().__init__(mod, mode, opts)
        self.native = opts.get('native')          # callable returning path of native binary (waits for the build)
        self.workdir = opts.get('workdir', '/tmp')
        self.results = {'violations': [], 'candidates_unreproduced': [], 'undecided': {}, 'unsupported': {}, 'samples': []}
        self.tries = {}
        self.done_msgs = set()
        self.val_budget = opts.get('validate', 4)
        self.validated = 0; self.val_mismatch = 0; self.val_tried = 0
        self.samples = []
        self.harness = None

    def cur(self): return self.fr.insts[self.fr.idx]

    def where(self):
        out = []
        for fr in reversed(self.st.frames[-6:]): out.append(fr.f.name)
        return out

    # ---------------------------------------------------------------- hooks
    def on_violation(self, ex, st, ins):
        """definite failure on this path: is the path feasible?"""
        self.candidate(ex.kind, ex.msg, [], [], ins)

    def undecided(self, msg, extra=None, ebv=None):
        d = self.results['undecided']
        if (extra is not None or ebv) and self.tries.get(('u', msg), 0) < self.opts.get('undecided_tries', 3):
            # the solver gave up: try a few partially concretised sub-queries for a counterexample
            self.tries[('u', msg)] = self.tries.get(('u', msg), 0) + 1
            if self.candidate('check', msg, ebv or [], extra or [], None, hard=True): return
        d[msg] = d.get(msg, 0) + 1

    def confirm_identity(self, x, y):
        """independent solver confirmation of an equality our normaliser established"""
        st = self.stats
        if x == y: st.ident_syn += 1; return
        n = len(x.n.d) + len(y.n.d) + sum(len(f.d) for f, _ in x.den + y.den)
        if n > 150 or st.ident_n >= self.opts.get('ident_max', 40): st.ident_norm += 1; return
        st.ident_n += 1
        def den(v):
            z = z3.RealVal(1)
            for f, e in v.den:
                for _ in range(e): z = z * self.zpoly(f)
            return z
        vs = set(x.vars()) | set(y.vars())
        defs, _ = self.zdefs(vs)
        self._ro = True
        r, m = self.q(defs + [self.zpoly(x.n) * den(y) != self.zpoly(y.n) * den(x)], 500, False)
        if r == 'unsat': st.ident_z3 += 1
        elif r == 'sat': raise AssertionError('normaliser disagrees with the solver')
        else: st.ident_norm += 1

    # ---------------------------------------------------------------- models
    def bv_ladder(self, zin, ebv, hard):
        """the solver gave no answer for a violated assertion: ask again with most inputs pinned (to the values of a model of the path, or small/random ones)"""
        st = self.st
        rng = random.Random(self.opts.get('seed', 1) * 104729 + len(st.pc))
        ins = [v for k, v in zin if z3.is_bv(v)]
        if not ins: return 'unknown', None
        r, base = self.q(st.pc, min(self.check_timeout, 2000), True) if st.pc else ('sat', None)
        if r == 'unsat': return r, None
        if r != 'sat': base = None
        t_end = time.time() + 4
        for rnd in range(12):
            if time.time() > t_end: break
            fx = []
            for v in ins:
                w = v.size()
                if base is not None and rng.random() < 0.7: x = base.eval(v, model_completion=True)
                else: x = z3.BitVecVal(rng.choice([rng.getrandbits(w), rng.randrange(8)]), w)
                fx.append((v, x))
            rng.shuffle(fx)
            fx = fx[min(rnd % 3, len(fx) - 1):]
            r, m = self.q([z3.simplify(z3.substitute(c, *fx)) for c in st.pc + ebv] + [v == x for v, x in fx], 600, True)
            if r == 'sat': return r, m
        return 'unknown', None

    def models(self, ebv, erc, hard=False):
        """yield input vectors (list of strings) satisfying PC and the extra constraints"""
        st = self.st
        bvm = None
        zin = [(k, v) for k, v in st.inputs]
        bvs = st.pc + ebv
        if bvs or any(k in ('u64', 'u32', 'u8', 'u16', 'b64', 'b32') and not isinstance(v, int) for k, v in zin):
            self._ro = False
            base = []
            small = []
            for k, v in zin:
                if k in ('u64', 'u32') and not isinstance(v, int): small.append(z3.ULT(v, 64))
            r = None
            if hard and ebv: r, bvm = self.bv_ladder(zin, ebv, hard)
            elif small:
                r, bvm = self.q(bvs + small, min(self.check_timeout, 2000), True)
            if r != 'sat' and not (hard and ebv): r, bvm = self.q(bvs, self.check_timeout, True)
            if r == 'unknown' and ebv and not hard: r, bvm = self.bv_ladder(zin, ebv, hard)
            if r != 'sat':
                self.last = r; return
        rin = [v for k, v in zin if k in ('f64', 'f32') and not isinstance(v, str)]
        def vec(rm, fixed):
            out = []; exact = {}
            for k, v in zin:
                if k in ('u64', 'u32', 'u8', 'u16'):
                    x = v if isinstance(v, int) else bvm.eval(v, model_completion=True).as_long()
                    out.append((k, hex(x)))
                elif k in ('b64', 'b32'):
                    out.append((k[0] + k[1:], 'b' + hex(bvm.eval(v, model_completion=True).as_long())))
                else:
                    x = rm.get(v)
                    if x is None: x = Fraction(0)
                    out.append((k, fmt_f(x, k)))
            return out
        if self.mode != 'real' or not (st.signs or erc or rin):
            self.last = 'sat'
            yield vec({}, None); return
        ok = False
        pcs = [(p, m) for p, m in st.signs.items() if m != 7]
        vs = set(rin)
        for p, m in pcs + erc: vs |= p.vars()
        defs, _ = self.zdefs(vs)
        self._ro = True
        def solve(extra, margin, timeout):
            cons = list(defs)
            for p, m in pcs + erc:
                if margin is not None and not (m & ZER):
                    z = self.zpoly(p)
                    if m == POS: cons.append(z >= margin)
                    elif m == NEG: cons.append(z <= -margin)
                    else: cons.append(z3.Or(z >= margin, z <= -margin))
                elif margin is not None and (p, m) in erc and m & (POS | NEG):
                    z = self.zpoly(p)
                    c = []
                    if m & POS: c.append(z >= margin)
                    if m & NEG: c.append(z <= -margin)
                    cons.append(z3.Or(*c))
                else: cons.append(self.zsign(p, m))
            r, m = self.q(cons + extra, timeout, True)
            self.last_r = r
            if r == 'sat': return {v: self.mval(m, v) for v in rin}
            return None
        def bnd(b): return [z3.And(self.zvar(v) >= -b, self.zvar(v) <= b) for v in rin]
        T = min(self.check_timeout, 3000)
        ineq = [z3.RealVal('1/64')]
        if not hard:
            for margin, b in ((z3.RealVal('1/4'), 8), (z3.RealVal('1/64'), 16), (z3.RealVal('1/1024'), 64), (None, 64), (None, None)):
                rm = solve(bnd(b) if b else [], margin, T if b else self.check_timeout)
                if rm is not None:
                    self.last = 'sat'; yield vec(rm, None)
                elif b is None and margin is None:
                    self.last = self.last_r
                    if self.last == 'unsat': return
        # concretisation ladder: pin random subsets of inputs to small rationals, solver decides the rest
        rng = random.Random(self.opts.get('seed', 1) * 7919 + len(pcs))
        order = [v for v in rin]
        t_end = time.time() + self.opts.get('ladder_time', 6)
        for rnd in range(self.opts.get('ladder', 16)):
            if time.time() > t_end: break
            k = max(0, len(order) - rng.choice([1, 2, 2, 3, 3, 4, 6]))
            pick = rng.sample(order, k)
            fx = {}
            for v in pick:
                if st.wit and v in st.wit and rng.random() < 0.4: fx[v] = Fraction(st.wit[v]).limit_denominator(64)
                else: fx[v] = Fraction(rng.choice([-6, -4, -3, -2, -1, 0, 1, 1, 2, 3, 4, 5, 6]), rng.choice([1, 1, 1, 2]))
            rm = solve([self.zvar(v) == z3.RealVal(str(x)) for v, x in fx.items()] + bnd(32), z3.RealVal('1/64'), 400)
            if rm is not None:
                self.last = 'sat'; yield vec(rm, None)

    last = None
    def candidate(self, kind, msg, ebv, erc, ins, hard=False):
        key = (kind, msg)
        if key in self.done_msgs: return True
        n = self.tries.get(key, 0)
        if n >= self.opts.get('cand_tries', 6):
            self.results['undecided'][msg] = self.results['undecided'].get(msg, 0) + 1
            return False
        got = False; nm = 0; outs = None
        self.last = None
        where = self.where()
        for v in self.models(ebv, erc, hard):
            nm += 1
            ok, outs, path = self.replay(v, kind, msg)
            if ok:
                self.done_msgs.add(key)
                self.results['violations'].append({'kind': kind, 'msg': msg, 'harness': self.harness, 'inputs': v, 'output': outs[-1500:], 'where': where, 'replay': path})
                self.stats.cut['violation'] = self.stats.cut.get('violation', 0) + 1
                return True
            if nm >= self.opts.get('cand_models', 12): break
        if nm == 0 and self.last == 'unsat':
            # path infeasible: vacuous
            self.stats.checks_proved += 1 if kind == 'check' else 0
            self.stats.cut['infeasible'] = self.stats.cut.get('infeasible', 0) + 1
            return False
        if not hard or nm:
            self.tries[key] = n + 1
        if nm:
            self.results['candidates_unreproduced'].append({'kind': kind, 'msg': msg, 'inputs': v, 'output': (outs or '')[-300:], 'where': where})
        else:
            self.results['undecided'][msg] = self.results['undecided'].get(msg, 0) + 1
        return False

    def replay(self, vec, kind, msg):
        fn = os.path.join(self.workdir, 'cand_%d_%d.txt' % (os.getpid(), self.stats.queries))
        with open(fn, 'w') as f:
            f.write('# %s : %s : %s\n' % (self.harness, kind, msg))
            for k, x in vec: f.write('%s %s\n' % (k, x))
        rc, out = self.run_native(fn, kind)
        bad = False
        if rc == 42: bad = True
        elif rc in (44, 45, 2): bad = False
        elif rc == -9: bad = False
        elif rc == 'timeout' or (kind == 'nonterm' and 'hard rss limit exhausted' in out): bad = kind == 'nonterm'; out += '\n(still running after the time limit, or memory exhausted)'
        elif rc == 43: bad = any(t in out for t in ('runtime error:', 'ERROR: AddressSanitizer:', 'ERROR: LeakSanitizer', '==')) and 'failed to allocate' not in out
        elif isinstance(rc, int) and rc < 0: bad = rc in (-11, -6, -8, -4, -7) and 'failed to allocate' not in out and 'ReserveShadow' not in out
        return bad, out, fn

    def run_native(self, fn, kind=''):
        exe = self.native()
        if exe is None: return 2, 'no native build'
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=1:abort_on_error=0:exitcode=43:allocator_may_return_null=1:hard_rss_limit_mb=4000'
        env['UBSAN_OPTIONS'] = 'halt_on_error=1:print_stacktrace=0:exitcode=43'
        env['LSAN_OPTIONS'] = 'exitcode=43'
        if self.mode != 'real': env['SYM_EXACT'] = '1'
        try:
            cmd = [exe, self.harness, fn]
            if kind == 'uninit':
                cmd = ['valgrind', '-q', '--error-exitcode=43', self.opts['native_plain'](), self.harness, fn]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20 if kind == 'nonterm' else 60, env=env, preexec_fn=unlimit)
            return p.returncode, p.stdout.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            return 'timeout', ''

    def on_endless(self):
        # a path that goes on far beyond the length of any path of the harness: does the real code come to an end on these inputs?
        sd = self.deadline; self.deadline = None
        try: found = self.candidate('nonterm', 'comes to an end', [], [], None)
        finally: self.deadline = sd
        if found: self.loop_limit = min(self.loop_limit, 100_000)

    def on_path(self, st):
        # validate a sample of completed paths against the real code
        if self.val_tried >= self.val_budget: return
        self.seen_paths = getattr(self, 'seen_paths', 0) + 1
        n = self.seen_paths
        if n > 3 and n & (n - 1): return      # 1,2,3,4,8,16,...
        vec = None
        self.tries_model = 0
        lad = self.opts.get('ladder'); self.opts['ladder'] = 2
        try:
            for v in self.models([], []): vec = v; break
        finally: self.opts['ladder'] = lad if lad is not None else 16
        if vec is None: return
        self.val_tried += 1
        fn = os.path.join(self.workdir, 'val_%d_%d.txt' % (os.getpid(), self.val_tried))
        with open(fn, 'w') as f:
            for k, x in vec: f.write('%s %s\n' % (k, x))
        rc, out = self.run_native(fn)
        reach = tuple(sorted(l[6:] for l in set(out.split('\n')) if l.startswith('REACH ')))
        if rc == 0 and reach == tuple(sorted(st.reached)): self.validated += 1
        else:
            self.val_mismatch += 1
            self.results.setdefault('mismatch', []).append({'rc': rc, 'reach_native': reach, 'reach_sym': sorted(st.reached), 'inputs': vec, 'out': out[-300:]})
        if len(self.samples) < 2:
            self.samples.append({'harness': self.harness, 'inputs': [' '.join(x) for x in vec], 'reached': sorted(st.reached), 'native_exit': rc})

    # ---------------------------------------------------------------- exploration
    def init_state(self):
        st = State()
        st.wit = {}
        return st

    def run_ctors(self, st):
        g = self.m.globals.get('llvm.global_ctors')
        if g is None: return st
        init = self.m.ginit(g)
        if init is None or init[0] != 'agg': return st
        ent = []
        for e in init[1]:
            ent.append((e[1][0][1], e[1][1]))
        ent.sort(key=lambda t: t[0])
        for pri, fn in ent:
            if fn[0] != 'g': continue
            f = self.m.funcs.get(fn[1])
            if f is None or f.lines is None: continue
            self.st = st
            self.push(f, [], None)
            save = self.on_path; self.on_path = None
            ok = []
            def viol(ex, st, ins): ok.append(ex)
            sv = self.on_violation; self.on_violation = viol
            try:
                r = self.run_state(st)
            except Unsupported as ex:
                r = []; st.frames = []
                self.results['unsupported']['ctor ' + fn[1] + ': ' + str(ex)] = 1
            if r or ok: st.frames = []
            self.on_path = save; self.on_violation = sv
            self.stats.cut.pop('done', None); 
        self.stats.paths = 0
        return st

    def explore(self, name, budget):
        self.harness = name
        st = self.init_state()
        self.run_ctors(st)
        st.nsteps = 0
        st.live = 0
        self.stats.funcs = {}
        self.stats.ident_syn = self.stats.ident_norm = self.stats.ident_z3 = self.stats.ident_n = 0
        self.st = st
        self.push(self.m.funcs[name], [], None)
        stack = [st]
        t0 = time.time()
        self.deadline = t0 + budget
        rng = random.Random(self.opts.get('seed', 1))
        nstates = 1
        while stack:
            if time.time() > self.deadline:
                self.stats.cut['pending-at-deadline'] = len(stack); break
            if len(stack) > 1 and rng.random() < 0.15: i = rng.randrange(len(stack)); s = stack.pop(i)
            else: s = stack.pop()
            try:
                nx = self.run_state(s)
            except Unsupported as ex:
                k = str(ex)[:160]
                self.results['unsupported'][k] = self.results['unsupported'].get(k, 0) + 1
                if self.opts.get('debug'):
                    print('UNSUPPORTED', k, self.where(), self.cur().text[:200])
                continue
            except poly.PolyBudget as ex:
                self.stats.cut['poly-budget'] = self.stats.cut.get('poly-budget', 0) + 1; continue
            except z3.Z3Exception as ex:
                if self.opts.get('debug'): traceback.print_exc()
                k = 'z3: ' + str(ex)[:120]
                self.results['unsupported'][k] = self.results['unsupported'].get(k, 0) + 1; continue
            except RecursionError as ex:
                k = 'recursion'
                self.results['unsupported'][k] = self.results['unsupported'].get(k, 0) + 1; continue
            except Exception as ex:
                if self.opts.get('debug'): traceback.print_exc(); print(self.where(), self.cur().text[:300])
                k = 'engine: %s %s' % (type(ex).__name__, str(ex)[:120])
                self.results['unsupported'][k] = self.results['unsupported'].get(k, 0) + 1; continue
            nstates += max(0, len(nx) - 1)
            stack.extend(nx)
        s = self.stats
        complete = not any(k in s.cut for k in ('pending-at-deadline', 'time', 'steps', 'poly-budget', 'rounding bound', 'recursion bound')) and not self.results['unsupported']
        R = self.results
        R.update({'harness': name, 'mode': self.mode, 'paths': s.paths, 'states': nstates, 'transitions': s.insts, 'queries': s.queries, 'solver_s': round(s.qtime, 3),
                  'sat': s.sat, 'unsat': s.unsat, 'unknown': s.unknown, 'checks': s.checks, 'checks_discharged': s.checks_proved, 'checks_on_concrete_value': s.trivial,
                  'identities_confirmed_by_solver': s.ident_z3, 'identities_by_normal_form': s.ident_norm + s.ident_syn, 'cut': dict(s.cut), 'reach': dict(s.reach), 'exhausted': complete,
                  'validated': self.validated, 'val_tried': self.val_tried, 'val_mismatch': self.val_mismatch, 'samples': self.samples,
                  'functions': sorted(s.funcs), 'wall': round(time.time() - t0, 2)})
        return R
