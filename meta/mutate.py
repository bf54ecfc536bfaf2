"""mutate.py PROPERTY N [SEED]: random single-line changes to the files a property is anchored in; runs the check on each.
Prints the changes the check does not report (survivors), so that they can be judged by hand. Not used by any check."""
import sys, os, re, random, subprocess, shutil, tempfile, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = os.environ.get('GEOMC_REPO', '/repo')
P, N = sys.argv[1], int(sys.argv[2]); rnd = random.Random(sys.argv[3] if len(sys.argv) > 3 else '1' + P)
files = os.environ.get('MUT_FILES', '').split()
if not files:
    for l in open(V + '/properties.jsonl'):
        d = json.loads(l)
        if d['id'] == P: files = d['anchors']['files']
RULES = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' < ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '),
         (r' \+= ', ' -= '), (r' -= ', ' += '), (r' \*= ', ' /= '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' and ', ' or '), (r' or ', ' and '), (r'\b1\b', '2'), (r'\b1\b', '0'), (r'\b0\b', '1'), (r'\b2\b', '3'),
         (r'std::min', 'std::max'), (r'std::max', 'std::min'), (r'\blo\b', 'hi'), (r'\bhi\b', 'lo'), (r'\.x\b', '.y'), (r'\.y\b', '.z'), (r'\.z\b', '.x'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\+\+', '--'),
         (r'\bi\b', 'j'), (r'\bj\b', 'i'), (r'\bM\b', 'N'), (r'\bN\b', 'M'), (r'\brows\b', 'cols'), (r'\bcols\b', 'rows'), (r'\bcos\b', 'sin'), (r'\bsin\b', 'cos'), (r'std::abs', ''), (r'if \((?!.*constexpr)', 'if (not '), (r'^(\s*)(?!return|else|\}|using|typedef|friend|template|break)(\w.*;)\s*$', r'\1;'), (r'floor', 'ceil'), (r'ceil', 'floor'), (r'-(\w)', r'\1'), (r'\ba\b', 'b'), (r'\bb\b', 'a')]
cands = []
for f in files:
    if not os.path.exists(REPO + '/' + f): continue
    src = open(REPO + '/' + f, newline='').read().split('\n'); incomment = False
    for n, l in enumerate(src):
        t = l.strip()
        if '/*' in t: incomment = True
        skip = incomment or t.startswith(('//', '*', '#', 'template', 'typedef', 'using', 'class', 'struct', 'namespace')) or not t
        if '*/' in t: incomment = False
        if skip: continue
        code = l.split('//')[0]
        for a, b in RULES:
            for m in re.finditer(a, code):
                new = code[:m.start()] + m.expand(b) + code[m.end():]
                if new.strip() != code.strip(): cands.append((f, n, l, new))
rnd.shuffle(cands)
W = tempfile.mkdtemp(prefix='mut_'); R = W + '/repo'; shutil.copytree(REPO, R, ignore=shutil.ignore_patterns('.git', '_build'))
H = V + '/harness/%s.cpp' % P
def sh(c, env=None, t=900):
    try: p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env); return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired: return 99, ''
link = [x for l in open(H) if l.startswith('// LINK:') for x in l.split(':')[1].split()]
cpps = subprocess.run("find %s/geomc -name '*.cpp'" % R, shell=True, stdout=subprocess.PIPE).stdout.decode().split()
cpps = [c for c in cpps if 'lib' in link or os.path.basename(c)[:-4] in link]
def ir(): 
    o = ''
    for s in [H] + cpps:
        rc, x = sh('clang++ -std=c++20 -w -O1 -g0 -S -emit-llvm -include optional -include iostream -I%s -I%s/harness %s -o - | grep -v "^source_filename\\|^!" ; exit ${PIPESTATUS[0]}' % (R, V, s))
        if 'error:' in x: return None
        o += x
    return o
base = ir(); assert base
done = kill = dead = bad = 0; surv = []
for f, n, old, new in cands:
    if done >= N: break
    s = open(R + '/' + f, newline='').read().split('\n'); s[n] = new + ('\r' if old.endswith('\r') else '')
    orig = open(R + '/' + f, newline='').read(); open(R + '/' + f, 'w', newline='').write('\n'.join(s))
    try:
        x = ir()
        if x is None: bad += 1; continue
        if x == base: dead += 1; print('SAME-IR %s:%d %s' % (f, n + 1, new.strip()[:110])); sys.stdout.flush(); continue
        done += 1; t0 = time.time()
        rc, o = sh('cd %s && timeout 400 python3 check.py --property %s --tier quick' % (V, P), dict(os.environ, GEOMC_REPO=R, IRSYM_FAILFAST='1'))
        if 'VIOLATION' in o: kill += 1; continue
        print('%s (%ds, rc %d) %s:%d\n   - %s\n   + %s' % ('SURVIVED' if rc == 0 else 'NOANSWER', time.time() - t0, rc, f, n + 1, old.strip(), new.strip()))
        if 'undecided 0' not in o or 'exhaustive=True' not in o: print('    ', ' | '.join(l for l in o.split('\n') if l and not l.startswith('note'))[-400:])
        sys.stdout.flush()
    finally: open(R + '/' + f, 'w', newline='').write(orig)
print('%s: %d changes run, %d reported, %d left, %d without effect on the harness code, %d did not compile' % (P, done, kill, done - kill, dead, bad))
shutil.rmtree(W)
