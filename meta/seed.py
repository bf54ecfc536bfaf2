"""seed.py ID PROPERTY FILE 'needs' 'what' : (old text, new text and demo on stdin separated by lines of =====)
Creates /verif/seeded/ID from a scratch copy of /repo, checks demo passes/fails, the build and the tests, and whether the check catches it."""
import sys, os, subprocess, json, shutil, tempfile
def sh(c, cwd=None, env=None, t=900):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env)
    return p.returncode, p.stdout.decode('utf8')
ID, PROP, FILE, needs, what = sys.argv[1:6]
old, new, demo = [x.strip('\n') for x in sys.stdin.read().split('\n=====\n')]
VD = os.environ.get('SEED_VERIF', '/verif'); RD = os.environ.get('SEED_REPO', '/repo')
W = tempfile.mkdtemp(prefix='seed_'); R = W + '/repo'
shutil.copytree(RD, R, symlinks=True, ignore=shutil.ignore_patterns('_build'))
f = R + '/' + FILE; s = open(f, newline='').read()
assert s.count(old) == 1, ('old text occurs', s.count(old))
open(f, 'w', newline='').write(s.replace(old, new))
rc, diff = sh('git diff', R)
root = sh('git log --format=%h', R)[1].split()[-1]; orig = set(x.rstrip('\r') for x in sh('git show %s:%s' % (root, FILE), R)[1].split('\n'))
bad = [l for l in diff.split('\n') if l.startswith('-') and not l.startswith('---') and l[1:].rstrip('\r') not in orig]
if bad: print('NOT ORIGINAL LINES', bad)
D = VD + '/seeded/' + ID; os.makedirs(D, exist_ok=True)
open(D + '/patch.diff', 'w', newline='').write(diff)
open(D + '/demo.cpp', 'w').write(demo + '\n')
open(D + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"; trap 'rm -rf "$out"' EXIT
clang++ -std=c++20 -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -w -include optional -include iostream -I"$PWD" "$here/demo.cpp" $(find "$PWD/geomc" -name '*.cpp') -o "$out/demo" || exit 3
ASAN_OPTIONS=detect_leaks=0 "$out/demo"
''')
json.dump(dict(property=PROP, needs=needs, what_it_breaks=what), open(D + '/meta.json', 'w'), indent=1)
a, o1 = sh('bash %s/demo.sh' % D, RD); b, o2 = sh('bash %s/demo.sh' % D, R)
print('demo: clean', a, 'patched', b); 
if a: print(o1[-1500:])
if b == 0 or b == 3: print('PATCHED DEMO DID NOT FAIL', o2[-1500:])
env = dict(os.environ, GEOMC_REPO=R); env.pop('IRSYM_CHILD', None)
rc, o = sh('python3 check.py --property %s --tier quick | grep -v "^note" | cut -c1-300 | head -8; cp evidence/%s.json %s/' % (PROP, PROP, W), VD, env)
print('CAUGHT' if 'VIOLATION' in o else 'MISSED'); print(o)
# stable tests: use the repo build on the scratch tree by temporarily applying to /repo
if os.environ.get('SEED_TESTS'): print(sh('bash ' + os.environ['SEED_TESTS'], env=dict(os.environ, RT_REPO=R))[1])
if '--test' in sys.argv:
    sh('git -C /repo apply %s/patch.diff' % D)
    try:
        r1, o = sh('bash /opt/vp/build.sh > %s/b.log 2>&1; echo $?; bash /opt/vp/test.sh %s/o.json >/dev/null 2>&1' % (W, W))
        base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if False else None
        res = json.load(open(W + '/o.json')); B = json.load(open('/opt/vp/BASELINE.json'))
        k = [k for k in B if isinstance(B[k], list)]
        st = set(B['stable_passing'] if 'stable_passing' in B else B[k[0]])
        print('build', o.strip()[-40:], 'stable broken:', sorted(st - set(res['passed'])))
    finally: sh('git -C /repo checkout -- .')
shutil.rmtree(W)
