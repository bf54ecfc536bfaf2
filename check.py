#!/usr/bin/env python3
"""check.py --property P [--tier quick|thorough] : decide one property by symbolic execution of /repo's current code."""
import os, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python3'
if 'IRSYM_CHILD' not in os.environ:
    os.environ['IRSYM_CHILD'] = '1'
    os.environ.setdefault('PYTHONHASHSEED', '0')
    os.execv(VT if os.path.exists(VT) else sys.executable, [VT, '-B', os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, VERIF + '/irsym')
sys.setrecursionlimit(20000)
import argparse, json, time, re, tempfile, shutil, multiprocessing as mp, signal, pickle, threading, subprocess
import build

def parse_spec(src, tier='quick'):
    spec = {'h': [], 'bounds': [], 'assume': [], 'src': src}
    for l in open(src):
        m = re.match(r'//@\s+(h_\w+)(.*)$', l)
        if m:
            d = {'name': m.group(1), 'mode': 'real', 'q': 20.0, 't': 120.0, 'split': None, 'need': [], 'tier': 'both', 'opts': {}}
            for kv in m.group(2).split():
                k, _, v = kv.partition('=')
                if k in ('q', 't'): d[k] = float(v)
                elif k == 'need': d['need'] = v.split(',')
                elif k == 'split': d['split'] = list({p.split(':')[0].lstrip('+'): int(p.split(':')[1]) for p in v.split(',') if tier == 'thorough' or p[0] != '+'}.items()) # +name: thorough only (a later entry replaces an earlier one)
                elif k == 'mode': d['mode'] = v
                elif k == 'tier': d['tier'] = v
                elif k == 'v': d['opts']['validate'] = int(v)
                else: d['opts'][k] = float(v) if '.' in v else int(v)
            spec['h'].append(d)
        m = re.match(r'//@bounds\s+(.*)$', l)
        if m: spec['bounds'].append(m.group(1))
        m = re.match(r'//@assume\s+(.*)$', l)
        if m: spec['assume'].append(m.group(1))
    return spec

def items_of(h):
    if not h['split']: return [{}]
    out = [{}]
    for name, n in h['split']:
        out = [dict(o, **{name: k}) for o in out for k in range(n)]
    return out

def worker(mod, h, fix, opts, budget, outfn, native, plain):
    os.setpgrp()
    try:
        import resource
        lim = int(opts.get('mem_gb', 3.5) * (1 << 30))
        resource.setrlimit(resource.RLIMIT_DATA, (lim, resource.getrlimit(resource.RLIMIT_DATA)[1]))
    except Exception: pass
    import explore
    o = dict(opts); o.update(h['opts']); o['fix'] = fix; o['fixn'] = dict(h['split'] or [])
    o['native'] = lambda: native
    o['native_plain'] = lambda: plain() if plain else None
    ex = explore.Explorer(mod, h['mode'], o)
    try: r = ex.explore(h['name'], budget)
    except Exception as e:
        import traceback
        r = {'harness': h['name'], 'error': traceback.format_exc()[-2000:]}
    r['fix'] = fix
    with open(outfn + '.tmp', 'wb') as f: pickle.dump(r, f)
    os.rename(outfn + '.tmp', outfn)
    os._exit(0)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--self-test', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('IRSYM_JOBS', '8')))
    A = ap.parse_args()
    P = A.property
    if A.self_test:
        import z3
        wd = tempfile.mkdtemp(prefix='irsym_self_')
        try: build.Build(wd).compile_ir(VERIF + '/rt/rt_std.cpp')
        finally: shutil.rmtree(wd, ignore_errors=True)
        for t in (build.CL, build.OPT, build.LINK): assert os.path.exists(t), t
        print('self-test ok: z3 %s' % z3.get_version_string()); sys.stdout.flush(); os._exit(0)
    if not P: ap.error('--property is required')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    src = '%s/harness/%s.cpp' % (VERIF, P)
    spec = parse_spec(src, A.tier)
    hs = [h for h in spec['h'] if h['tier'] in ('both', A.tier) and (A.only is None or re.search(A.only, h['name']))]
    evd = VERIF + '/evidence'; os.makedirs(evd, exist_ok=True)
    wd = tempfile.mkdtemp(prefix='irsym_%s_' % P)
    ok = 2
    try:
        ok = run(P, A, seed, src, spec, hs, evd, wd, t0)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    sys.stdout.flush()
    os._exit(ok)

def run(P, A, seed, src, spec, hs, evd, wd, t0):
    import llparse
    b = build.Build(wd)
    defs = ['-DTHOROUGH=1'] if A.tier == 'thorough' else []
    nat = b.native_start(src, defs=defs)
    notes = []
    try:
        ll = b.ir(src, [h['name'] for h in hs], defs=defs)
    except build.BuildError as e:
        print('BUILD-FAILED: the harness for %s does not compile against the current tree' % P)
        print(str(e)[-3000:])
        return 2
    mod = llparse.Module(open(ll).read())
    missing = [h['name'] for h in hs if h['name'] not in mod.funcs]
    hs = [h for h in hs if h['name'] in mod.funcs]
    for m in missing: print('NOTE: harness %s missing' % m)
    t_ir = time.time() - t0
    native = nat()
    if native is None: notes.append('native replay binary failed to build')
    plain = b.native_start(src, plain=True, defs=defs)
    t_build = time.time() - t0
    items = []
    for h in hs:
        fx = items_of(h)
        for f in fx: items.append((h, f))
    # longest budgets first
    key = 't' if A.tier == 'thorough' else 'q'
    items.sort(key=lambda it: -it[0][key])
    opts = {'seed': seed, 'workdir': wd, 'validate': 4 if A.tier == 'quick' else 12,
            'check_timeout': 8000 if A.tier == 'quick' else 30000, 'cond_timeout': 400 if A.tier == 'quick' else 1000,
            'mem_gb': 3.0}
    ctx = mp.get_context('fork')
    running = []; results = []; n = 0
    pend = list(items)
    viol_seen = False
    t_end = t0 + float(os.environ.get('IRSYM_DEADLINE', '780' if A.tier == 'quick' else '1e9'))    # whole-check limit
    while pend or running:
        if time.time() > t_end or (A.tier == 'quick' and time.time() > t0 + 400 and any(r.get('violations') for _, r in results)):
            for p, h, fx, out, ts in running:
                try: os.killpg(p.pid, signal.SIGKILL)
                except Exception: p.kill()
                p.join()
            for h, fx in [(h, fx) for p, h, fx, out, ts in running] + pend: results.append((h, {'harness': h['name'], 'fix': fx, 'error': 'not finished within the time limit of the whole check'}))
            break
        while pend and len(running) < A.jobs:
            h, fx = pend.pop(0); n += 1
            out = '%s/res_%d' % (wd, n)
            p = ctx.Process(target=worker, args=(mod, h, fx, opts, h[key], out, native, plain))
            p.start()
            running.append((p, h, fx, out, time.time()))
        time.sleep(0.02)
        if os.environ.get('IRSYM_FAILFAST') and results and results[-1][1].get('violations'):
            for p, *_ in running:
                try: os.killpg(p.pid, signal.SIGKILL)
                except Exception: p.kill()
            break
        for it in list(running):
            p, h, fx, out, ts = it
            if not p.is_alive() or os.path.exists(out):
                p.join(2)
                if p.is_alive(): p.kill(); p.join()
                running.remove(it)
                if os.path.exists(out):
                    try: results.append((h, pickle.load(open(out, 'rb'))))
                    except Exception as e: results.append((h, {'harness': h['name'], 'fix': fx, 'error': 'unreadable result'}))
                else: results.append((h, {'harness': h['name'], 'fix': fx, 'error': 'worker ended (exit %s)' % p.exitcode}))
            elif time.time() - ts > h[key] * 1.3 + 45:
                try: os.killpg(p.pid, signal.SIGKILL)
                except Exception: p.kill()
                p.join(); running.remove(it)
                results.append((h, {'harness': h['name'], 'fix': fx, 'error': 'worker stopped at its hard time limit'}))
    return report(P, A, seed, spec, results, evd, wd, t0, t_ir, t_build, notes)

def load_known():
    out = []
    fn = VERIF + '/known_findings.txt'
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r'known: property=(\S+) harness=(\S+) msg="([^"]*)"\s*(.*)$', l.strip())
            if m: out.append({'property': m.group(1), 'harness': m.group(2), 'msg': m.group(3), 'what': m.group(4)})
    return out

def report(P, A, seed, spec, results, evd, wd, t0, t_ir, t_build, notes):
    known = [k for k in load_known() if k['property'] == P]
    tot = {k: 0 for k in ('paths', 'states', 'transitions', 'queries', 'sat', 'unsat', 'unknown', 'checks', 'checks_discharged', 'checks_on_concrete_value',
                          'identities_confirmed_by_solver', 'identities_by_normal_form', 'validated', 'val_tried', 'val_mismatch')}
    solver = 0.0; funcs = set(); samples = []; hrep = {}; viols = []; undec = {}; unsup = {}; errors = []; cands = []
    for h, r in results:
        nm = r['harness']
        e = hrep.setdefault(nm, {'items': 0, 'exhausted': True, 'paths': 0, 'reach': {}, 'cut': {}, 'checks': 0, 'checks_discharged': 0, 'queries': 0, 'solver_s': 0.0, 'wall': 0.0, 'undecided': {}, 'unsupported': {}, 'mode': h['mode'], 'need': h['need']})
        e['items'] += 1
        if 'error' in r:
            e['exhausted'] = False; errors.append('%s %s: %s' % (nm, r.get('fix'), r['error'])); continue
        for k in tot: tot[k] += r.get(k, 0)
        solver += r['solver_s']; funcs.update(r['functions'])
        e['exhausted'] &= r['exhausted']
        for k in ('paths', 'checks', 'checks_discharged', 'queries'): e[k] += r[k]
        e['solver_s'] = round(e['solver_s'] + r['solver_s'], 2); e['wall'] = round(e['wall'] + r['wall'], 2)
        for k in ('reach', 'cut', 'undecided', 'unsupported'):
            for a, c in r[k].items(): e[k][a] = e[k].get(a, 0) + c
        if len(samples) < 6: samples.extend(r['samples'][:1])
        for v in r['violations']: viols.append(v)
        for c in r['candidates_unreproduced']: cands.append(dict(c, harness=nm))
        for m_ in r.get('mismatch', []): notes.append('path model and native run differ in %s: %s' % (nm, json.dumps(m_, default=str)[:700]))
    vac = []
    for nm, e in hrep.items():
        for w in e['need']:
            if not e['reach'].get(w): vac.append('%s: label "%s" never reached' % (nm, w))
    # report
    seen = set(); nviol = 0; kf = []
    for v in viols:
        key = (v['harness'], v['msg'])
        if key in seen: continue
        seen.add(key)
        k = next((k for k in known if k['harness'] == v['harness'] and k['msg'] == v['msg']), None)
        if k:
            print('KNOWN-FINDING: property=%s %s' % (P, k['what'])); kf.append(k['what']); continue
        nviol += 1
        dst = '%s/replay_%s_%d.txt' % (evd, P, nviol)
        with open(dst, 'w') as f:
            f.write('# property %s, harness %s (%s/harness/%s.cpp)\n# %s: %s\n# native outcome: %s\n' % (P, v['harness'], VERIF, P, v['kind'], v['msg'], v['output'].strip().replace('\n', '\n#   ')[:1500]))
            f.write('# re-run: python3 %s/replay.py %s\n' % (VERIF, dst))
            for kk, x in v['inputs']: f.write('%s %s\n' % (kk, x))
        print('VIOLATION property=%s replay=%s' % (P, dst))
        print('  %s: %s: %s' % (v['harness'], v['kind'], v['msg']))
    for k in known:
        if k['what'] not in kf and A.only is None:
            print('note: listed finding did not show on this tree: %s' % k['what'])
    ex = all(e['exhausted'] for e in hrep.values()) and not errors
    ev = {'property': P, 'tier': A.tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': tot['states'], 'transitions': tot['transitions'], 'traces_validated_against_impl': tot['validated'], 'samples': samples[:6] or ['none'],
                       'paths_completed': tot['paths'], 'queries': tot['queries'], 'solver_seconds': round(solver, 2), 'query_results': {'sat': tot['sat'], 'unsat': tot['unsat'], 'unknown': tot['unknown']},
                       'assertions': tot['checks'], 'assertions_discharged': tot['checks_discharged'], 'assertions_on_path_constant_values': tot['checks_on_concrete_value'],
                       'equalities_by_exact_normal_form': tot['identities_by_normal_form'], 'equalities_reconfirmed_by_solver': tot['identities_confirmed_by_solver'],
                       'path_models_run_natively': tot['val_tried'], 'path_models_disagreeing': tot['val_mismatch'],
                       'undecided_assertions': {h: e['undecided'] for h, e in hrep.items() if e['undecided']},
                       'unsupported': {h: e['unsupported'] for h, e in hrep.items() if e['unsupported']},
                       'vacuity_missing': vac, 'harnesses': {h: {k: e[k] for k in ('mode', 'items', 'exhausted', 'paths', 'checks', 'checks_discharged', 'queries', 'solver_s', 'wall', 'reach', 'cut')} for h, e in hrep.items()},
                       'bounds': spec['bounds'], 'exhaustive': bool(ex), 'functions_encoded': demangle(sorted(funcs)),
                       'candidates_not_reproduced_natively': cands[:10], 'errors': errors, 'notes': notes[:20]},
          'assumptions': spec['assume'] + ['floats are exact reals in mode real and IEEE-754 in mode fp', 'sequential execution; one thread'],
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    with open('%s/%s.json' % (evd, P), 'w') as f: json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d harnesses, %d paths, %d queries (%.1fs solver), %d/%d assertions discharged, undecided %s, %d traces validated (%d disagree), exhaustive=%s, ir %.1fs build %.1fs wall %.1fs' % (
        P, A.tier, len(hrep), tot['paths'], tot['queries'], solver, tot['checks_discharged'], tot['checks'], sum(sum(e['undecided'].values()) for e in hrep.values()), tot['validated'], tot['val_mismatch'], ex, t_ir, t_build, time.time() - t0))
    if A.verbose:
        for h, e in sorted(hrep.items()):
            print('  %-28s items=%d ex=%s paths=%d checks=%d/%d q=%d solver=%.1f wall=%.1f reach=%s cut=%s undec=%s unsup=%s' % (h, e['items'], e['exhausted'], e['paths'], e['checks_discharged'], e['checks'], e['queries'], e['solver_s'], e['wall'], e['reach'], e['cut'], e['undecided'], e['unsupported']))
        for c in cands[:12]: print('  cand', c['harness'], c['kind'], c['msg'], c['inputs'], c['output'][-200:], c['where'][:2])
        for x in notes[:12]: print('  note', x)
    for x in errors[:10]: print('  error:', x)
    for x in vac: print('  vacuous:', x)
    return 1 if nviol else 0

def demangle(fs):
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(fs).encode(), stdout=subprocess.PIPE)
        out = p.stdout.decode().split('\n')
    except Exception: out = fs
    return [x[:200] for x in out if 'geom::' in x or x.startswith('h_')][:400]

main()
