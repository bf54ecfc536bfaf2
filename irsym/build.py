import re
"""Build IR and native binaries from /repo's current working tree."""
import os, subprocess, glob, threading, hashlib
REPO = os.environ.get('GEOMC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CL = '/usr/lib/llvm-18/bin/clang++'
OPT = '/usr/lib/llvm-18/bin/opt'
LINK = '/usr/lib/llvm-18/bin/llvm-link'
BASE = ['-std=c++20', '-include', 'optional', '-include', 'iostream', '-I' + REPO, '-I' + VERIF + '/harness', '-w']
IRFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-threadsafe-statics', '-S', '-emit-llvm']

class BuildError(Exception): pass

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode('utf8', 'replace')

class Build:
    def __init__(self, wd):
        self.wd = wd; self.lib = {}; self.lock = threading.Lock(); self.jobs = {}
    def libsrcs(self, text):
        # "// LINK: lib" links every library source; "// LINK: A B" only geomc/**/A.cpp and B.cpp
        m = re.search(r'// LINK: (.*)', text)
        if not m: return []
        want = m.group(1).split()
        return [l for l in sorted(glob.glob(REPO + '/geomc/**/*.cpp', recursive=True)) if want == ['lib'] or os.path.basename(l)[:-4] in want]
    def compile_ir(self, src, defs=()):
        out = os.path.join(self.wd, hashlib.sha1((src + ' '.join(defs)).encode()).hexdigest()[:12] + '.ll')
        rc, o = run([CL] + BASE + IRFLAGS + list(defs) + [src, '-o', out])
        if rc: raise BuildError('%s: %s' % (src, o[-3000:]))
        return out
    def ir(self, src, harnesses, need_lib=None, defs=()):
        """linked, lightly simplified module for the given harness entry points"""
        jobs = [src]
        text = open(src).read()
        libs = self.libsrcs(text)
        rt = VERIF + '/rt/rt_std.cpp'
        import concurrent.futures as cf
        def comp(s):
            try: return self.compile_ir(s, defs if s == src else ())
            except BuildError:
                if s == src: raise
                return None
        with cf.ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(comp, [src, rt] + libs))
        outs = [o for o in outs if o]
        full = os.path.join(self.wd, os.path.basename(src) + '.%s.linked.ll' % hashlib.sha1(' '.join(defs).encode()).hexdigest()[:6])
        rc, o = run([LINK, '-S', '-o', full] + outs)
        if rc: raise BuildError(o[-2000:])
        red = full.replace('.linked.ll', '.red.ll')
        api = ','.join(harnesses)
        rc, o = run([OPT, '-S', '-internalize-public-api-list=' + api, '-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg,dce),globaldce', full, '-o', red])
        if rc: raise BuildError(o[-2000:])
        return red
    def native_start(self, src, plain=False, defs=()):
        """start the native build; returns a function that waits and gives the binary path"""
        out = os.path.join(self.wd, os.path.basename(src) + ('.plain' if plain else '.san'))
        flags = ['-O1', '-g0'] if plain else ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero,float-cast-overflow,vptr', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
        libs = self.libsrcs(open(src).read())
        cmd = [CL] + BASE + flags + list(defs) + [src, VERIF + '/rt/rt_native.cpp'] + libs + ['-rdynamic', '-ldl', '-o', out]
        st = {}
        def go():
            rc, o = run(cmd)
            st['rc'] = rc; st['out'] = o
        if plain:
            lk = threading.Lock()
            def get_plain():
                with lk:
                    if 'rc' not in st: go()
                return out if st['rc'] == 0 else None
            return get_plain
        th = threading.Thread(target=go); th.start()
        def get():
            th.join()
            if st['rc'] and not st.get('said'):
                st['said'] = True
                import sys; sys.stderr.write('native build failed: ' + st['out'][-1500:] + '\n')
            return out if st['rc'] == 0 else None
        return get
