#!/usr/bin/env python3
"""replay.py FILE: run a recorded counterexample on the unmodified code; exit 1 if the property fails on it."""
import json
import os
import sys

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))


def main():
    import signal
    import traceback
    from symx import harness
    from symx.known import load_known
    d = json.load(open(sys.argv[1]))
    known = load_known()
    S = harness.ConcS(d['inputs'])
    S.known = lambda kid, cond: None if kid == d.get('known') or kid not in known else S.require(not cond)

    def alarm(*a):
        print('VIOLATED: no answer within 60 s')
        os._exit(1)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(60)
    import importlib
    try:
        m = importlib.import_module(d['mod'])
        getattr(m, d['func'])(S, *d['args'])
    except harness.Violation as e:
        print('VIOLATED: %s' % e)
        for l, v in S.obs:
            print('  %s = %r' % (l, v))
        sys.exit(1)
    except harness.Unmet:
        print('precondition not met')
        sys.exit(3)
    except Exception:
        print('VIOLATED: unexpected exception')
        print(traceback.format_exc()[-1500:])
        for l, v in S.obs:
            print('  %s = %r' % (l, v))
        sys.exit(1)
    print('holds')
    for l, v in S.obs:
        print('  %s = %r' % (l, v))


if __name__ == '__main__':
    main()
