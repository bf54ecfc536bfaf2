"""debug: run one harness: run1.py file.cpp harness [mode] [budget]"""
import sys, os, json, time, subprocess
sys.path.insert(0, os.path.dirname(__file__))
sys.setrecursionlimit(20000)
import build, llparse, explore
src, h = sys.argv[1], sys.argv[2]
mode = sys.argv[3] if len(sys.argv) > 3 else 'real'
budget = float(sys.argv[4]) if len(sys.argv) > 4 else 30
wd = '/tmp/irsym_dbg'; os.makedirs(wd, exist_ok=True)
t = time.time()
b = build.Build(wd)
ll = b.ir(src, [h])
nat = b.native_start(src)
print('ir', time.time() - t)
t = time.time()
m = llparse.Module(open(ll).read())
print('parse', time.time() - t)
fx = {}
for a in sys.argv[5:]:
    k, v = a.split('='); fx[k] = int(v)
ex = explore.Explorer(m, mode, {'native': nat, 'native_plain': b.native_start(src, plain=True), 'workdir': wd, 'debug': True, 'fix': fx})
r = ex.explore(h, budget)
fn = r.pop('functions'); print(len(fn), 'functions')
print(json.dumps(r, indent=1, default=str)[:6000])
