"""Regenerate properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys, re
D = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(D)
sys.path.insert(0, D)
from props import P
out = []
for p in P:
    assert len(p['title']) <= 80, p['title']
    out.append(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
        quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
        anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))))
open(V + '/properties.jsonl', 'w').write('\n'.join(out) + '\n')
checks, na = [], []
for p in P:
    if p['na']: na.append(dict(property=p['id'], reason=p['na'])); continue
    h = '%s/harness/%s.cpp' % (V, p['id'])
    t = open(h).read()
    bounds = ' '.join(re.findall(r'^//@bounds (.*)$', t, re.M)); assume = ' '.join(re.findall(r'^//@assume (.*)$', t, re.M))
    c = 'python3 check.py --property %s --tier ' % p['id']
    checks.append(dict(property=p['id'], quick_cmd=c + 'quick', thorough_cmd=c + 'thorough', evidence_file='evidence/%s.json' % p['id'],
        technique='symbolic execution of the compiled LLVM IR, z3 decides each assertion, counterexamples replayed natively',
        level='model_checking',
        level_note=(p['note'] + ' ' if p['note'] else '') + 'Bounded. Bounds: ' + bounds + '. Assumes: ' + assume + '. Trusts clang, the IR interpreter in irsym/ (cross-checked by replaying path models natively) and z3.'))
json.dump(dict(version=1, setup_cmd='python3 check.py --self-test', checks=checks, not_applicable=na,
    notes='Every check recompiles the harness and /repo headers to LLVM IR from the working tree, executes it symbolically and confirms any counterexample against a native sanitizer build. See DESIGN.md.'),
    open(V + '/MANIFEST.json', 'w'), indent=1)
