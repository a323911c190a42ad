"""Explores the paths of one case for a time slice; runs in a worker process."""
import os
import resource
import signal
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'

sys.dont_write_bytecode = True
for p in (REPO, VERIF):
    if p not in sys.path:
        sys.path.insert(0, p)
if SITE not in sys.path:
    sys.path.append(SITE)

from symx import core, harness, rewrite                     # noqa: E402
from symx.core import Ctx, GiveUp, Infeasible                # noqa: E402
from symx.known import load_known                            # noqa: E402,F401

SymS, Found = harness.make_syms()
BASE = None
CTX = None
KNOWN = {}
PATH_TIME = 40


def init():
    global BASE, CTX
    BASE = rewrite.Loader({})
    for n in ('html.parser', 'xml.sax.saxutils', 'shlex', 'posixpath', 'urllib.parse', 'textwrap', 'difflib'):
        BASE.load(n)
    for n in rewrite.WRITERS:
        if n in rewrite.PURE:
            BASE.load(n)
    CTX = Ctx()
    Ctx.cur = CTX


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def silence():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)


def run_concrete(modname, func, args, inputs, known=None, limit=20):
    """-> (status, message, observations); status in ok, violation, unmet, error, timeout"""
    import importlib
    S = harness.ConcS(inputs)
    S.known = lambda kid, cond: None if kid == known or kid not in KNOWN else S.require(not cond)
    out, err = sys.stdout, sys.stderr
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        sys.stdout = sys.stderr = open(os.devnull, 'w')
        try:
            m = importlib.import_module(modname)
            getattr(m, func)(S, *args)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            sys.stdout.close()
            sys.stdout, sys.stderr = out, err
        return 'ok', '', S.obs
    except harness.Violation as e:
        return 'violation', str(e), S.obs
    except harness.Unmet:
        return 'unmet', '', S.obs
    except Timeout:
        return 'timeout', 'no answer within %d s' % limit, S.obs
    except RecursionError:
        return 'error', 'RecursionError', S.obs
    except Exception as e:
        return 'error', '%s: %s' % (type(e).__name__, str(e)[:300]), S.obs
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def explore(task):
    """task: dict(case=index, mod, func, args, items=[(script, seed)], slice=seconds)"""
    ctx = CTX
    ctx.stats.__init__()
    mod, func, args = task['mod'], task['func'], task['args']
    ctx.queue = [(list(s), m) for s, m in task['items']]
    out = {'case': task['case'], 'cands': [], 'giveups': {}, 'mismatch': [], 'samples': [], 'funcs': [],
           'covers': {}, 'checks': 0, 'lossy': 0, 'paths': 0}
    t0 = time.time()
    seen = set()
    first = task.get('first')
    old = signal.signal(signal.SIGALRM, _alarm)
    while ctx.queue and time.time() - t0 < task['slice']:
        script, seed = ctx.queue.pop()
        ctx.reset(script, seed)
        loader = rewrite.Loader({'creole': REPO, 'harness': VERIF}, base=BASE)
        S = SymS(ctx, loader)
        S.known = lambda kid, cond: S.require(_not(cond)) if kid in KNOWN else None
        exc = None
        cand = None
        signal.setitimer(signal.ITIMER_REAL, PATH_TIME)
        try:
            try:
                m = loader.load(mod)
                getattr(m, func)(S, *args)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Infeasible:
            ctx.stats.infeasible += 1
            continue
        except GiveUp as e:
            bump(out['giveups'], str(e))
            exc = 'giveup'
        except Timeout:
            bump(out['giveups'], 'path time limit')
            exc = 'giveup'
        except Found as e:
            cand = (S.concrete(e.model), e.msg)
        except (harness.Violation, harness.Unmet):
            raise
        except RecursionError:
            # our own frames are deeper than the code's: the plain run below decides
            bump(out['giveups'], 'recursion limit')
            exc = 'giveup'
        except MemoryError:
            bump(out['giveups'], 'memory')
            exc = 'giveup'
        except Exception as e:
            exc = '%s: %s' % (type(e).__name__, safe(e))
        out['paths'] += 1
        out['checks'] += S.checks
        for l in S.covered:
            bump(out['covers'], l)
        if ctx.lossy:
            out['lossy'] += 1
        if cand is None:
            try:
                inputs = S.concrete(ctx.model)
            except KeyError:
                continue
            if first:
                st, msg, obs = profiled(out, mod, func, args, inputs)
                first = False
            else:
                st, msg, obs = run_concrete(mod, func, args, inputs)
            if st in ('violation', 'timeout', 'error'):
                cand = (inputs, msg)
                if exc is None:
                    # the solver said it holds on this path, the real code disagrees on a member of it
                    bump(out['giveups'], 'plain run disagrees')
            elif exc == 'giveup':
                pass
            elif exc is not None:
                out['mismatch'].append((inputs, 'engine: ' + exc))
            elif st == 'unmet':
                out['mismatch'].append((inputs, 'precondition differs'))
            else:
                sym = [(l, harness.concval(v, ctx.model)) for l, v in S.obs]
                if sym != obs:
                    out['mismatch'].append((inputs, 'engine: %r real: %r' % (sym, obs)))
                else:
                    ctx.stats.validated += 1
                    if len(out['samples']) < 2:
                        out['samples'].append({'inputs': inputs, 'observed': [(l, repr(v)[:200]) for l, v in obs]})
            del out['mismatch'][5:]
        if cand is not None:
            key = cand[1][:60]
            if key not in seen or len(out['cands']) < 3:
                seen.add(key)
                out['cands'].append(cand)
            if len(out['cands']) >= 6:
                break
    signal.signal(signal.SIGALRM, old)
    out['left'] = [(s, {v.name: cp for v, cp in m.items() if v.base is None} if m and not isinstance(next(iter(m)), str) else m)
                   for s, m in ctx.queue]
    ctx.queue = []
    out['stats'] = ctx.stats.as_dict()
    out['pid'] = os.getpid()
    return out


def safe(e):
    try:
        return str(e)[:200]
    except BaseException:
        return '?'


def _not(c):
    from symx.symstr import SymBool
    return ~c if isinstance(c, SymBool) else not c


def bump(d, k):
    d[k] = d.get(k, 0) + 1


def profiled(out, mod, func, args, inputs):
    funcs = set()

    def prof(frame, event, arg):
        if event == 'call':
            f = frame.f_code.co_filename
            if f.startswith(REPO + '/'):
                funcs.add('%s:%s' % (f[len(REPO) + 1:], frame.f_code.co_qualname))
    sys.setprofile(prof)
    try:
        return run_concrete(mod, func, args, inputs)
    finally:
        sys.setprofile(None)
        out['funcs'] = sorted(funcs)


def rss_mb():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * 4 // 1024


def loop(conn, mem_gb):
    """worker process main"""
    resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    init()
    sys.setrecursionlimit(6000)
    while True:
        task = conn.recv()
        if task is None:
            break
        try:
            res = explore(task)
        except Exception as e:
            import traceback
            res = {'case': task['case'], 'crash': '%s\n%s' % (e, traceback.format_exc()[-1500:])}
            init()
        # a fresh process from time to time: compiled patterns, name tables and caches only grow
        res['recycle'] = rss_mb() > 1200
        conn.send(res)
        if res['recycle']:
            conn.close()
            os._exit(0)
