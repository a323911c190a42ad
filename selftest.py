#!/usr/bin/env python3
"""Set-up check: the engine refutes what is wrong, proves what is right and agrees with CPython on every path."""
import os
import sys

VT = '/opt/veriftools/pyvenv/bin/python'
if os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv') and os.path.exists(VT):
    os.execv(VT, [VT, '-B'] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import worker         # noqa: E402

worker.init()


def run(func):
    out = {'cands': [], 'paths': 0, 'bad': []}
    items = [([], None)]
    while items and not out['cands']:
        o = worker.explore(dict(case=0, mod='harness.canary', func=func, args=[], items=items, slice=20, first=True))
        items = o['left']
        out['cands'] += o['cands']
        out['paths'] += o['paths']
        out['bad'] += o['mismatch'] + list(o['giveups'])
    print(func, out['paths'], 'paths', out['cands'][:1], out['bad'][:2])
    return out


ok = bool(run('broken')['cands']) and bool(run('bad_regex')['cands'])
r = run('fine')
ok = ok and not r['cands'] and not r['bad'] and r['paths'] > 3
print('selftest', 'passed' if ok else 'FAILED')
sys.exit(0 if ok else 1)
