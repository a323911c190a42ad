#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--case NAME] [--jobs N] [-v]

Decides one property: every case of harness/<property>.py is executed symbolically on the current sources
under /repo until its paths are exhausted; each check is discharged by z3 on each path; counterexamples are
replayed on the unmodified code in a fresh interpreter before they are reported."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import subprocess
import sys
import time

VT = '/opt/veriftools/pyvenv/bin/python'
if os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv') and os.path.exists(VT):
    os.execv(VT, [VT, '-B'] + sys.argv)

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
from symx import worker                          # noqa: E402
from symx.core import Stats                      # noqa: E402

PLAIN = '/opt/venv/bin/python'


def replay(path, timeout=90):
    """Does the recorded counterexample fail on the real code, in a fresh interpreter?"""
    try:
        r = subprocess.run([PLAIN, '-B', os.path.join(VERIF, 'replay.py'), path], capture_output=True, text=True,
                           timeout=timeout, cwd=VERIF, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    except subprocess.TimeoutExpired:
        return True, 'no answer within %d s' % timeout
    return r.returncode == 1, (r.stdout + r.stderr).strip()[-2000:]


class Pool:
    def __init__(self, n, mem_gb):
        ctx = mp.get_context('fork')
        self.ws = {}
        self.ctx, self.mem = ctx, mem_gb
        for _ in range(n):
            self.spawn()

    def spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=worker.loop, args=(b, self.mem), daemon=True)
        p.start()
        b.close()
        self.ws[a] = [p, None]

    def stop(self):
        for c, (p, t) in self.ws.items():
            p.kill()
        for c, (p, t) in self.ws.items():
            p.join()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--deadline', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    t0 = time.time()
    deadline = a.deadline or (420 if tier == 'quick' else 780)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(edir, 'replay'), exist_ok=True)
    modname = 'harness.' + prop.lower()
    hm = importlib.import_module(modname)
    cases = hm.cases(tier)
    if a.case:
        cases = [c for c in cases if a.case in c[0]]
    known = worker.load_known()
    worker.KNOWN.update(known)
    known_lines = []
    for kid, d in known.items():
        if d['property'] != prop:
            continue
        path = os.path.join(edir, 'replay', '%s-known-%s.json' % (prop, kid))
        json.dump({'property': prop, 'mod': d.get('mod', modname), 'func': d['func'], 'args': d.get('args', []),
                   'inputs': d['inputs'], 'known': kid}, open(path, 'w'))
        bad, text = replay(path)
        if bad:
            known_lines.append('KNOWN-FINDING: property=%s %s' % (prop, d['what']))
            print(known_lines[-1])
        else:
            print('note: known finding %s of %s no longer reproduces' % (kid, prop))

    results = []
    for c in cases:
        results.append(dict(name=c[0], func=c[1], args=list(c[2:]), paths=0, checks=0, stats=Stats(), giveups={},
                            mismatch=[], samples=[], funcs=set(), lossy=0, done=False, pending=0, crash=[], wall=0.0,
                            artifacts=[]))
    todo = []
    for i, c in enumerate(cases):
        todo.append(dict(case=i, mod=modname, func=c[1], args=list(c[2:]), items=[([], None)], slice=0.5, first=True))
        results[i]['pending'] = 1
    todo.reverse()
    violations = []
    tried = {}
    pool = Pool(a.jobs, 4)
    timed_out = False
    try:
        while True:
            idle = [c for c, w in pool.ws.items() if w[1] is None]
            while idle and todo:
                t = todo.pop()
                # hand out small pieces while there are idle workers and nothing else to do
                if len(t['items']) > 1 and len(todo) < len(idle):
                    k = max(1, len(t['items']) // max(2, len(idle) - len(todo)))
                    rest = t['items'][k:]
                    t['items'] = t['items'][:k]
                    todo.append(dict(t, items=rest, first=False))
                    results[t['case']]['pending'] += 1
                c = idle.pop()
                pool.ws[c][1] = t
                t['t'] = time.time()
                c.send(t)
            busy = [c for c, w in pool.ws.items() if w[1] is not None]
            if not busy and not todo:
                break
            if time.time() - t0 > deadline:
                timed_out = True
                break
            for c in mpc.wait(busy, 1.0):
                t = pool.ws[c][1]
                r = results[t['case']]
                try:
                    o = c.recv()
                except (EOFError, OSError):
                    # the worker died (memory): its piece stays undecided
                    p = pool.ws.pop(c)[0]
                    p.join()
                    r['crash'].append('worker process ended (exit %s)' % p.exitcode)
                    r['pending'] -= 1
                    pool.spawn()
                    continue
                pool.ws[c][1] = None
                if o.get('recycle'):
                    pool.ws.pop(c)[0].join()
                    c.close()
                    pool.spawn()
                r['pending'] -= 1
                r['wall'] += time.time() - t['t']
                if 'crash' in o:
                    r['crash'].append(o['crash'])
                    continue
                r['paths'] += o['paths']
                r['checks'] += o['checks']
                r['lossy'] += o['lossy']
                r['stats'].merge(o['stats'])
                r['funcs'].update(o['funcs'])
                for k, v in o['giveups'].items():
                    r['giveups'][k] = r['giveups'].get(k, 0) + v
                r['mismatch'] += o['mismatch']
                r['samples'] += o['samples'] if len(r['samples']) < 4 else []
                if o['left']:
                    n = 1 if len(o['left']) < 4 else 2
                    k = (len(o['left']) + n - 1) // n
                    for j in range(0, len(o['left']), k):
                        todo.insert(0, dict(t, items=o['left'][j:j + k], slice=2.0, first=False))
                        r['pending'] += 1
                for inputs, msg in o['cands']:
                    key = (r['name'], msg[:60])
                    if tried.get(key, 0) >= 4 or len(violations) >= 3:
                        continue
                    tried[key] = tried.get(key, 0) + 1
                    h = hashlib.sha256(json.dumps([r['name'], inputs], sort_keys=True).encode()).hexdigest()[:10]
                    path = os.path.join(edir, 'replay', '%s-%s.json' % (prop, h))
                    json.dump({'property': prop, 'case': r['name'], 'mod': modname, 'func': r['func'],
                               'args': r['args'], 'inputs': inputs, 'message': msg}, open(path, 'w'), indent=1)
                    bad, text = replay(path)
                    if bad:
                        violations.append((r['name'], inputs, msg, path, text))
                        tried[key] = 99
                    else:
                        r['artifacts'].append((inputs, msg))
            if violations:
                break
    finally:
        pool.stop()

    total = Stats()
    funcs = set()
    samples = []
    complete = True
    notes = []
    for r in results:
        total.merge(r['stats'].as_dict())
        funcs |= r['funcs']
        for s in r['samples'][:2]:
            if len(samples) < 12:
                samples.append(dict(case=r['name'], **s))
        ok = not (r['pending'] or r['giveups'] or r['mismatch'] or r['crash'] or r['artifacts'] or r['stats'].inconclusive)
        r['complete'] = ok
        complete &= ok
        if r['crash']:
            notes.append('%s: engine failure: %s' % (r['name'], r['crash'][0][-300:]))
        if r['giveups']:
            notes.append('%s: paths not decided: %s' % (r['name'], r['giveups']))
        if r['mismatch']:
            notes.append('%s: engine and real code differ: %s' % (r['name'], r['mismatch'][:2]))
        if r['artifacts']:
            notes.append('%s: counterexamples that do not reproduce: %s' % (r['name'], r['artifacts'][:2]))
        if r['pending'] and not violations:
            notes.append('%s: not exhausted within the time limit' % r['name'])
    wall = time.time() - t0
    paths = sum(r['paths'] for r in results)
    checks = sum(r['checks'] for r in results)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': paths, 'transitions': total.branches + total.domain_decided,
            'traces_validated_against_impl': total.validated,
            'samples': samples or [{'note': 'no path completed'}],
            'exhaustive': bool(complete and not violations),
            'assertions_decided': checks, 'assertions_by_z3': total.assert_z3,
            'assertions_syntactically_true': total.assert_static,
            'solver_queries': total.queries, 'solver_unsat': total.unsat, 'solver_sat': total.sat,
            'solver_unknown': total.unknown, 'solver_seconds': round(total.solver_s, 3),
            'branch_decisions': total.branches, 'branches_decided_by_domains': total.domain_decided,
            'functions_encoded': sorted(funcs),
            'bounds': getattr(hm, 'BOUNDS', ''),
            'cases': [{'name': r['name'], 'paths': r['paths'], 'checks': r['checks'], 'complete': r['complete'],
                       'cpu_s': round(r['wall'], 2)} for r in results],
            'not_decided': notes,
        },
        'assumptions': list(getattr(hm, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
        'wall_s': round(wall, 2), 'violations': len(violations),
    }
    json.dump(ev, open(os.path.join(edir, prop + '.json'), 'w'), indent=1, default=str)
    if a.v:
        for r in results:
            print('%-40s paths %6d checks %6d cpu %7.2f %s %s' % (
                r['name'], r['paths'], r['checks'], r['wall'], '' if r['complete'] else 'INCOMPLETE', 'lossy %d' % r['lossy'] if r['lossy'] else ''))
        print(total.as_dict())
    for n in notes:
        print('NOT DECIDED:', n[:600])
    print('%s %s: %d cases, %d paths, %d checks, %d solver queries (%.1f s), %d paths replayed on the real code, %s, %.1f s' % (
        prop, tier, len(results), paths, checks, total.queries, total.solver_s, total.validated,
        'exhaustive within the stated bounds' if complete and not violations else 'NOT exhaustive', wall))
    if violations:
        for name, inputs, msg, path, text in violations:
            print('case %s: %s\n  inputs %s\n  %s' % (name, msg, json.dumps(inputs)[:600], text.replace('\n', '\n  ')[:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.exit(1)
    vacuous = [r['name'] for r in results if r['checks'] == 0 and not r['pending']]
    if vacuous:
        print('NOT DECIDED: no check was reached in', vacuous)
    if checks == 0 or (timed_out and paths == 0):
        sys.exit(2)
    sys.exit(0)


COMMON_ASSUMPTIONS = [
    'symbolic texts range over all Unicode scalar values of the stated character class, up to the stated length',
    'console output, warnings and the text of tracebacks are not modelled',
    'CPython 3.12 semantics of str/re/html.parser as encoded in symx; every path is replayed on the real code '
    'with one model of it and the observed values compared',
]

if __name__ == '__main__':
    main()
