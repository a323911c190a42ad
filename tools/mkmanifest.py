"""Writes MANIFEST.json: a check for every property that has a harness."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', i.lower() + '.py')):
        checks.append({
            'property': i, 'quick_cmd': 'python3 run.py %s --tier quick' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
            'technique': 'bounded symbolic execution of the Python sources, z3 decides every path and assertion',
            'level': 'model_checking',
            'level_note': 'Holds for every input within the bounds named in DESIGN.md and the evidence file (text lengths, '
                          'number of lines, nesting depth); trusts the encoding of str/re/html.parser operations in symx, '
                          'which is compared with CPython on one model of every path.'})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 selftest.py', 'checks': checks, 'not_applicable': na,
           'notes': 'Counterexamples are replayed on the unmodified code by replay.py before they are reported.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
