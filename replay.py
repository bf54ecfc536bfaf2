#!/usr/bin/env python3
"""replay.py FILE: rebuild the harness natively (ASan/UBSan) from /repo and run one recorded input on the real code."""
import sys, os, re, tempfile, subprocess, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + '/irsym')
import build
fn = sys.argv[1]; t = open(fn).read()
P, h = re.search(r'# property (\S+), harness (\w+)', t).groups()
wd = tempfile.mkdtemp(prefix='irsym_replay_')
try:
    exe = build.Build(wd).native_start('%s/harness/%s.cpp' % (build.VERIF, P))()
    if exe is None: sys.exit(2)
    env = dict(os.environ, ASAN_OPTIONS='exitcode=43', UBSAN_OPTIONS='halt_on_error=1:exitcode=43')
    try: r = subprocess.run([exe, h, fn], env=env, timeout=120)
    except subprocess.TimeoutExpired: print('still running after 120 s'); sys.exit(1)
    print('exit', r.returncode)
    rc = 1 if r.returncode else 0
finally: shutil.rmtree(wd, ignore_errors=True)
sys.exit(rc)
