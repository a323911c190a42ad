"""Formulas over symbolic code points and integers, and the path explorer.

A run of the code under test is repeated once per feasible path.  Every time the code has to
decide something about a symbolic value, ``Ctx.branch`` is asked; it replays the recorded
decisions of the path prefix and, at its end, asks z3 which sides are feasible under the path
condition.  The other feasible side is queued.  When the queue is empty the case is exhausted.
"""
import time

import z3

from . import charset as C


class EngineSignal(BaseException):
    """Base of everything the engine throws through the code under test."""


class Infeasible(EngineSignal):
    pass


class GiveUp(EngineSignal):
    """This path cannot be followed further by the engine (counted as inconclusive)."""


# --------------------------------------------------------------------------- terms

class Var:
    """A symbolic character (or any value with a finite static domain of naturals)."""
    __slots__ = ('name', 'dom', 'z', 'id', 'base', 'fn')
    table = {}

    def __repr__(self):
        return '?%s' % self.name


def mkvar(name, dom):
    v = Var.table.get((name, dom.id))
    if v is None:
        v = Var()
        v.name, v.dom, v.z, v.id = name, dom, None, len(Var.table) + 1
        v.base, v.fn = None, None
        Var.table[(name, dom.id)] = v
    return v


class DMap:
    """A total function code point -> code point: identity except on `table`."""
    cache = {}

    def __init__(self, name, table):
        self.name, self.table = name, table
        self.touched = C.norm([(k, k) for k in table])
        self.pre = {}
        self.img = {}

    def apply(self, cp):
        return self.table.get(cp, cp)

    def preimage(self, s):
        r = self.pre.get(s.id)
        if r is None:
            r = self.pre[s.id] = C.union(
                C.minus(s, self.touched),
                C.norm([(k, k) for k, v in self.table.items() if v in s]))
        return r

    def image(self, s):
        r = self.img.get(s.id)
        if r is None:
            r = self.img[s.id] = C.union(
                C.minus(s, self.touched),
                C.norm([(v, v) for k, v in self.table.items() if k in s]))
        return r


class FnMap:
    """A character computed from a code point by arithmetic (a hex digit of an escape)."""

    def __init__(self, f, image, rng):
        self.f, self.img, self.rng = f, image, rng
        self.touched = C.ALL
        self.pre = {}

    def apply(self, cp):
        return self.f(cp) if self.rng[0] <= cp <= self.rng[1] else 48

    def preimage(self, s):
        r = self.pre.get(s.id)
        if r is None:
            lo, hi = self.rng
            out = []
            for cp in range(lo, hi + 1):
                if self.f(cp) in s:
                    if out and out[-1][1] == cp - 1:
                        out[-1][1] = cp
                    else:
                        out.append([cp, cp])
            if 48 in s:
                out += [[0, lo - 1], [hi + 1, C.MAXCP]]
            r = self.pre[s.id] = C.norm([(a, b) for a, b in out])
        return r

    def image(self, s):
        return self.img


def _hexmap(name):
    """'u3'..'u0': hex digits of a BMP code point, 'r7'.. of the others, 'h3'.. / 'l3'..: of their surrogates"""
    sh = 4 * int(name[1])
    val = {'u': lambda c: c, 'r': lambda c: c, 'h': lambda c: 0xD800 + ((c - 0x10000) >> 10), 'l': lambda c: 0xDC00 + ((c - 0x10000) & 0x3ff)}[name[0]]
    return FnMap(lambda cp: ord('0123456789abcdef'[(val(cp) >> sh) & 15]), C.of('0123456789abcdef'),
                 (0, 0xffff) if name[0] == 'u' else (0x10000, C.MAXCP))


# the maps that give the value of a digit, plus 48
VALUE = {'d': 'decimal', 'x': 'hexval'}
_dmaps = {}


def dmap(name):
    m = _dmaps.get(name)
    if m is None:
        if name[:4] == 'hex-':
            m = _dmaps[name] = _hexmap(name[4:])
            return m
        if name in VALUE.values():
            import unicodedata
            table = {cp: 48 + unicodedata.decimal(chr(cp)) for cp in C.isdecimal()}
            if name == 'hexval':
                table.update((ord(x), 48 + int(x, 16)) for x in 'abcdefABCDEF')
            table = {k: v for k, v in table.items() if k != v}
        else:
            table = {k: ord(v) for k, v in C.char_map(name).items() if len(v) == 1}
        m = _dmaps[name] = DMap(name, table)
    return m


_dv = {}


def derive(fn, v):
    """The character fn(v); None when fn can change the length on v's domain."""
    key = (fn, v.id)
    r = _dv.get(key)
    if r is None:
        m = dmap(fn)
        if not C.inter(v.dom, m.touched):
            return v
        r = Var()
        r.name = '%s(%s)' % (fn, v.name)
        r.dom = m.image(v.dom)
        r.z = None
        r.id = len(Var.table) + 1
        Var.table[(r.name, r.dom.id, 'd')] = r
        r.base, r.fn = v, m
        _dv[key] = r
    return r


# --------------------------------------------------------------------------- linear integer terms

class Lin:
    """const + sum(coef * atom); atoms are ('c', Var) code point, ('d', Var) decimal or ('x', Var) hexadecimal digit value."""
    __slots__ = ('terms', 'const')

    def __init__(self, terms=(), const=0):
        self.terms = tuple(terms)
        self.const = const

    def key(self):
        return tuple((k, v.id, co) for (k, v), co in self.terms) + (self.const,)

    def name(self):
        """the same in every process: models are handed over by the names of the variables"""
        return repr((sorted((k, v.name, co) for (k, v), co in self.terms), self.const))


def lin(x):
    if isinstance(x, Lin):
        return x
    return Lin((), int(x))


def lin_add(a, b, k=1):
    d = {}
    for at, co in a.terms:
        d[at] = d.get(at, 0) + co
    for at, co in b.terms:
        d[at] = d.get(at, 0) + k * co
    terms = sorted(((at, co) for at, co in d.items() if co), key=lambda t: (t[0][0], t[0][1].id))
    return Lin(terms, a.const + k * b.const)


def lin_mul(a, k):
    return Lin(((at, co * k) for at, co in a.terms) if k else (), a.const * k)


def atom_bounds(at, dom):
    kind, v = at
    if kind != 'c':
        return 0, 9 if kind == 'd' else 15
    if not dom:
        return 0, -1
    return dom.iv[0][0], dom.iv[-1][1]


# --------------------------------------------------------------------------- formulas

class F:
    __slots__ = ('k', 'a', 'id', 'z', 'vs', 'neg')

    def __repr__(self):
        if self.k == 'in':
            return '%r in %r' % self.a
        return '(%s %s)' % (self.k, ' '.join(map(repr, self.a)))


_ft = {}


def _mk(k, a, key):
    f = _ft.get((k, key))
    if f is None:
        f = F()
        f.k, f.a, f.id, f.z, f.vs, f.neg = k, a, len(_ft), None, None, None
        _ft[(k, key)] = f
    return f


TRUE = _mk('true', (), ())
FALSE = _mk('false', (), ())


def IN(v, s):
    while v.base is not None:
        s = v.fn.preimage(s)
        v = v.base
    s = C.inter(s, v.dom)
    if not s:
        return FALSE
    if s is v.dom:
        return TRUE
    return _mk('in', (v, s), (v.id, s.id))


def EQ(a, b):
    """Equality of two character terms."""
    if a is b:
        return TRUE
    if not C.inter(a.dom, b.dom):
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk('eq', (a, b), (a.id, b.id))


def LT(a, b):
    if a is b:
        return FALSE
    return CMP('<=', Lin(((('c', a), 1), (('c', b), -1)) if a.id < b.id else ((('c', b), -1), (('c', a), 1)), 1))


def CMP(op, l):
    """l op 0 with op in <=, ==, !="""
    if not l.terms:
        v = l.const
        r = v <= 0 if op == '<=' else v == 0 if op == '==' else v != 0
        return TRUE if r else FALSE
    return _mk('cmp', (op, l), (op,) + l.key())


def NOT(f):
    if f.neg is not None:
        return f.neg
    k = f.k
    if k == 'true':
        r = FALSE
    elif k == 'false':
        r = TRUE
    elif k == 'in':
        v, s = f.a
        r = IN(v, C.compl(s))
    elif k == 'eq':
        r = _mk('ne', f.a, tuple(x.id for x in f.a))
    elif k == 'ne':
        r = _mk('eq', f.a, tuple(x.id for x in f.a))
    elif k == 'cmp':
        op, l = f.a
        if op == '==':
            r = CMP('!=', l)
        elif op == '!=':
            r = CMP('==', l)
        else:                       # not (l <= 0)  <=>  1 - l <= 0
            r = CMP('<=', lin_add(Lin((), 1), l, -1))
    elif k == 'and':
        r = OR([NOT(x) for x in f.a])
    else:
        r = AND([NOT(x) for x in f.a])
    f.neg = r
    return r


def AND(fs):
    un = {}
    rest = {}
    stack = list(fs)
    stack.reverse()
    while stack:
        f = stack.pop()
        k = f.k
        if k == 'true':
            continue
        if k == 'false':
            return FALSE
        if k == 'and':
            stack.extend(reversed(f.a))
        elif k == 'in':
            v, s = f.a
            if v in un:
                s = C.inter(un[v], s)
                if not s:
                    return FALSE
            un[v] = s
        else:
            rest[f.id] = f
    parts = [IN(v, s) for v, s in un.items()]
    parts += rest.values()
    if not parts:
        return TRUE
    if len(parts) == 1:
        return parts[0]
    for f in rest.values():
        if f.neg is not None and f.neg.id in rest:
            return FALSE
    parts.sort(key=lambda f: f.id)
    return _mk('and', tuple(parts), tuple(f.id for f in parts))


def OR(fs):
    un = {}
    rest = {}
    stack = list(fs)
    stack.reverse()
    while stack:
        f = stack.pop()
        k = f.k
        if k == 'false':
            continue
        if k == 'true':
            return TRUE
        if k == 'or':
            stack.extend(reversed(f.a))
        elif k == 'in':
            v, s = f.a
            un[v] = C.union(un[v], s) if v in un else s
        else:
            rest[f.id] = f
    parts = []
    for v, s in un.items():
        p = IN(v, s)
        if p.k == 'true':
            return TRUE
        parts.append(p)
    parts += rest.values()
    if not parts:
        return FALSE
    if len(parts) == 1:
        return parts[0]
    for f in rest.values():
        if f.neg is not None and f.neg.id in rest:
            return TRUE
    parts.sort(key=lambda f: f.id)
    return _mk('or', tuple(parts), tuple(f.id for f in parts))


def fvars(f):
    """The base variables of a formula."""
    if f.vs is None:
        k = f.k
        if k in ('true', 'false'):
            f.vs = frozenset()
        elif k == 'in':
            f.vs = frozenset((f.a[0],))
        elif k in ('eq', 'ne'):
            f.vs = frozenset(base(x) for x in f.a)
        elif k == 'cmp':
            f.vs = frozenset(base(at[1]) for at, _ in f.a[1].terms)
        else:
            f.vs = frozenset().union(*[fvars(x) for x in f.a])
    return f.vs


def base(v):
    while v.base is not None:
        v = v.base
    return v


# ---- to z3

def zvar(v):
    if v.z is None:
        if v.base is None:
            v.z = z3.Int(v.name)
        else:
            b = zvar(v.base)
            # intervals of the base domain with a constant offset
            runs = []
            if type(v.fn) is FnMap:
                raise GiveUp('arithmetic on an escape digit')
            for cp in C.inter(v.base.dom, v.fn.touched):
                off = v.fn.table[cp] - cp
                if runs and runs[-1][1] == cp - 1 and runs[-1][2] == off:
                    runs[-1][1] = cp
                else:
                    runs.append([cp, cp, off])
            e = b
            for a, z, off in runs:
                e = z3.If(z3.And(b >= a, b <= z), b + off, e)
            v.z = e
    return v.z


def zset(c, s, dom):
    """c in s, given c in dom: use don't-care gaps of dom to shorten."""
    def pos(s, other):
        # merge the intervals of s that only have points outside dom between them
        out = []
        for a, b in s.iv:
            if out and not C.inter(other, C.rng(out[-1][1] + 1, a - 1) if out[-1][1] + 1 <= a - 1 else C.EMPTY):
                out[-1][1] = b
            else:
                out.append([a, b])
        return out
    n = C.minus(dom, s)
    p1 = pos(s, n)
    p2 = pos(n, s)
    neg = len(p2) < len(p1)
    ors = []
    for a, b in (p2 if neg else p1):
        ors.append(c == a if a == b else z3.And(c >= a, c <= b))
    e = z3.Or(ors) if len(ors) != 1 else ors[0]
    return z3.Not(e) if neg else e


def zlin(l):
    e = z3.IntVal(l.const)
    for (k, v), co in l.terms:
        if k != 'c':
            v = derive(VALUE[k], v)
            e = e + co * (zvar(v) - 48)
        else:
            e = e + co * zvar(v)
    return e


def tz(f):
    if f.z is None:
        k = f.k
        if k == 'true':
            z = z3.BoolVal(True)
        elif k == 'false':
            z = z3.BoolVal(False)
        elif k == 'eq':
            z = zvar(f.a[0]) == zvar(f.a[1])
        elif k == 'ne':
            z = zvar(f.a[0]) != zvar(f.a[1])
        elif k == 'cmp':
            op, l = f.a
            e = zlin(l)
            z = e <= 0 if op == '<=' else e == 0 if op == '==' else e != 0
        else:
            raise AssertionError(k)
        f.z = z
    return f.z


# ---- evaluation under a model

def cval(v, m):
    if v.base is not None:
        return v.fn.apply(cval(v.base, m))
    return m[v]


def lin_range(ctx, l):
    """bounds of the value by the domains of its characters"""
    lo = hi = l.const
    for (k, v), co in l.terms:
        d = ctx.tdom(v)
        if not d:
            return None, None
        if k == 'c':
            a, b = d.iv[0][0], d.iv[-1][1]
        else:
            d = dmap(VALUE[k]).image(d)
            a, b = max(d.iv[0][0] - 48, 0), min(d.iv[-1][1] - 48, 9 if k == 'd' else 15)
        if co > 0:
            lo += co * a
            hi += co * b
        else:
            lo += co * b
            hi += co * a
    return lo, hi


def lval(l, m):
    n = l.const
    for (k, v), co in l.terms:
        x = cval(v, m)
        if k != 'c':
            x = dmap(VALUE[k]).apply(x) - 48
        n += co * x
    return n


def fval(f, m):
    k = f.k
    if k == 'in':
        return m[f.a[0]] in f.a[1]
    if k == 'and':
        for x in f.a:
            if not fval(x, m):
                return False
        return True
    if k == 'or':
        for x in f.a:
            if fval(x, m):
                return True
        return False
    if k == 'eq':
        return cval(f.a[0], m) == cval(f.a[1], m)
    if k == 'ne':
        return cval(f.a[0], m) != cval(f.a[1], m)
    if k == 'true':
        return True
    if k == 'false':
        return False
    op, l = f.a
    n = lval(l, m)
    return n <= 0 if op == '<=' else n == 0 if op == '==' else n != 0


PREFER = [ord(c) for c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789']


def pick(s, salt=0):
    n = len(PREFER)
    for i in range(n):
        cp = PREFER[(i + salt) % n]
        if cp in s:
            return cp
    for a, b in s.iv:
        if b >= 33:
            return max(a, 33)
    return s.min()


# --------------------------------------------------------------------------- solver wrapper

class Stats:
    FIELDS = ('paths', 'branches', 'queries', 'unsat', 'sat', 'unknown', 'solver_s', 'domain_decided',
              'model_reuse', 'assertions', 'assert_z3', 'assert_static', 'inconclusive', 'validated',
              'concretized', 'infeasible', 'cached')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}

    def merge(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d.get(f, 0))


class Solver:
    """One z3 solver; every query holds only the part of the path condition connected to the question.

    A character that occurs only in set-membership atoms is encoded as the index of its equivalence class
    (the coarsest partition of its current domain that every set in the query respects); a character that
    is compared with another one, or used in arithmetic, keeps its code point encoding.  Both are exact.
    """

    def __init__(self, stats, timeout_ms=20000):
        self.s = z3.SimpleSolver()
        self.s.set('timeout', timeout_ms)
        self.stats = stats
        self.cache = {}
        self.kvars = {}
        self.lits = {}
        self.axioms = {}

    def check(self, ctx, f):
        """A model (of the connected variables) of path condition + f; None if unsat; GiveUp on unknown."""
        todo = list(fvars(f))
        vs = set(todo)
        clauses = {}
        while todo:
            v = todo.pop()
            for cl in ctx.cindex.get(v, ()):
                if cl.id not in clauses:
                    clauses[cl.id] = cl
                    for w in fvars(cl):
                        if w not in vs:
                            vs.add(w)
                            todo.append(w)
        order = sorted(vs, key=lambda v: v.id)
        for v in order:
            if v not in ctx.declared:
                ctx.declare(v)
        key = (f.id, tuple(sorted(clauses)), tuple((v.id, ctx.dom[v].id) for v in order))
        if key in self.cache:
            self.stats.cached += 1
            r = self.cache[key]
            return dict(r) if r is not None else None
        t = time.perf_counter()
        cls = list(clauses.values()) + [f]
        raw, sets = set(), {}
        for c in cls:
            r, ss = scanned(c)
            raw |= r
            for v, st in ss:
                sets.setdefault(v, {})[st] = None
        enc = {}
        zs = []
        for v in order:
            d = ctx.dom[v]
            if v in raw:
                zs.append(z3.And(zvar(v) >= 0, zvar(v) <= C.MAXCP))
                if d is not C.ALL:
                    zs.append(zset(zvar(v), d, C.ALL))
                enc[v] = None
                for st in sets.get(v, ()):
                    zs.append(self.lit(v, st) == zset(zvar(v), C.inter(d, st), d))
            else:
                key2 = (v.id, d.id, tuple(sets.get(v, ())))
                ax = self.axioms.get(key2)
                if ax is None:
                    ax = self.axioms[key2] = self.axiom(v, d, sets.get(v, ()))
                enc[v] = ax[0]
                zs.append(ax[1])
        for c in cls:
            zs.append(self.tr(c))
        self.s.push()
        try:
            self.s.add(*zs)
            r = self.s.check()
            self.stats.queries += 1
            if r == z3.unsat:
                self.stats.unsat += 1
                self.cache[key] = None
                return None
            if r != z3.sat:
                self.stats.unknown += 1
                raise GiveUp('solver returned unknown')
            self.stats.sat += 1
            m = self.s.model()
            out = {}
            for v in order:
                e = enc[v]
                x = m.eval(zvar(v) if e is None else e[0], model_completion=False)
                if z3.is_int_value(x):
                    n = x.as_long()
                    if e is None:
                        out[v] = n
                    else:
                        p = e[1][n]
                        cur = ctx.model.get(v)
                        out[v] = cur if cur is not None and cur in p else pick(p, v.id * 7)
                else:
                    cur = ctx.model.get(v)
                    out[v] = cur if cur is not None and cur in ctx.dom[v] else pick(ctx.dom[v])
            for c in cls:
                if not fval(c, out):
                    raise RuntimeError('model check failed: %r %r' % (c, out))
            self.cache[key] = out
            return dict(out)
        finally:
            self.s.pop()
            self.stats.solver_s += time.perf_counter() - t

    def lit(self, v, st):
        b = self.lits.get((v, st))
        if b is None:
            b = self.lits[v, st] = z3.Bool('i!%d!%d' % (v.id, st.id))
        return b

    def axiom(self, v, d, sets):
        parts = [d]
        for st in sets:
            nxt = []
            for p in parts:
                i = C.inter(p, st)
                if not i or i is p:
                    nxt.append(p)
                else:
                    nxt.append(i)
                    nxt.append(C.minus(p, st))
            parts = nxt
        k = self.kvars.get(v)
        if k is None:
            k = self.kvars[v] = z3.Int('k!%d' % v.id)
        n = len(parts)
        zs = [k >= 0, k < n]
        for st in sets:
            yes = [i for i, p in enumerate(parts) if C.inter(p, st) is p]
            b = self.lit(v, st)
            if len(yes) == n:
                zs.append(b)
            elif not yes:
                zs.append(z3.Not(b))
            else:
                runs = []
                for i in yes:
                    if runs and runs[-1][1] == i - 1:
                        runs[-1][1] = i
                    else:
                        runs.append([i, i])
                o = [k == x if x == y else z3.And(k >= x, k <= y) for x, y in runs]
                zs.append(b == (o[0] if len(o) == 1 else z3.Or(o)))
        return (k, parts), z3.And(zs)

    def tr(self, f):
        z = f.z
        if z is None:
            k = f.k
            if k == 'in':
                z = self.lit(*f.a)
            elif k == 'and':
                z = z3.And([self.tr(x) for x in f.a])
            elif k == 'or':
                z = z3.Or([self.tr(x) for x in f.a])
            else:
                z = tz(f)
            f.z = z
        return z


_scan = {}


def scanned(f):
    r = _scan.get(f.id)
    if r is None:
        raw, sets = set(), {}
        scan(f, raw, sets, set())
        r = _scan[f.id] = (raw, [(v, st) for v, l in sets.items() for st in l])
    return r


def scan(f, raw, sets, seen):
    if f.id in seen:
        return
    seen.add(f.id)
    k = f.k
    if k == 'in':
        v, s = f.a
        l = sets.setdefault(v, [])
        if s not in l:
            l.append(s)
    elif k in ('and', 'or'):
        for x in f.a:
            scan(x, raw, sets, seen)
    elif k in ('eq', 'ne', 'cmp'):
        raw.update(fvars(f))


# --------------------------------------------------------------------------- paths

class Ctx:
    cur = None

    def __init__(self, stats=None, no_fast=False):
        self.stats = stats or Stats()
        self.solver = Solver(self.stats)
        self.no_fast = no_fast       # ask z3 about everything (cross-check mode)
        self.queue = []
        self.reset([], None)

    def reset(self, script, model):
        self.script = script
        self.given = bool(model)
        self.pos = 0
        self.decisions = []
        self.items = []          # Var declarations and formulas, in order
        self.vars = []
        self.declared = set()
        self.dom = {}
        self.clauses = []        # non-unary facts
        self.cindex = {}         # var -> clauses mentioning it
        # a model given by variable name (from another process) is bound as the variables are declared
        self.seed = {}
        self.model = {}
        for k, v in (model or {}).items():
            if type(k) is str:
                self.seed[k] = v
            else:
                self.model[k] = v
        self.dead = None
        self.fresh = 0
        self.lossy = False
        self.observed = []
        self.inputs = {}
        self.notes = []
        self.steps = 0

    # -- declarations
    def declare(self, v):
        v = base(v)
        if v in self.declared:
            return
        self.declared.add(v)
        self.vars.append(v)
        self.dom[v] = v.dom
        self.items.append(v)
        if v not in self.model:
            cp = self.seed.get(v.name)
            self.model[v] = cp if cp is not None and cp in v.dom else pick(v.dom, len(self.vars) * 7)

    def new(self, name, dom):
        v = mkvar(name, dom)
        self.declare(v)
        return v

    # -- assuming
    def assume(self, f):
        k = f.k
        if k == 'true':
            return
        if k == 'false':
            raise Infeasible()
        if k == 'and':
            for x in f.a:
                self.assume(x)
            return
        if k == 'in':
            v, s = f.a
            d = C.inter(self.dom[v], s)
            if d is not self.dom[v]:
                self.dom[v] = d
                self.items.append(f)
            return
        r = self.simp(f)
        if r.k in ('true',):
            return
        if r.k in ('in', 'and'):
            return self.assume(r)
        if r.k == 'eq':
            a, b = r.a
            if a.base is None and b.base is None:
                d = C.inter(self.dom[a], self.dom[b])
                self.dom[a] = self.dom[b] = d
        self.items.append(r)
        self.clauses.append(r)
        for v in fvars(r):
            self.cindex.setdefault(v, []).append(r)

    def require(self, f):
        """assume f (a precondition); the path ends if it is infeasible."""
        r = self.ev(f)
        if r is True:
            return
        if r is False:
            raise Infeasible()
        for v in fvars(f):
            self.declare(v)
        # a model that does is kept: on a replayed path it also satisfies the decisions to come
        if not fval(f, self.model):
            m = self.find(f)
            if m is None:
                raise Infeasible()
            self.model = m
        self.assume(f)

    # -- three valued evaluation under the current unary domains
    def ev(self, f):
        k = f.k
        if k == 'in':
            v, s = f.a
            d = self.dom.get(v)
            if d is None:
                self.declare(v)
                d = v.dom
            i = C.inter(d, s)
            if i is d:
                return True
            if not i:
                return False
            return None
        if k == 'and':
            res = True
            for x in f.a:
                r = self.ev(x)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        if k == 'or':
            res = False
            for x in f.a:
                r = self.ev(x)
                if r is True:
                    return True
                if r is None:
                    res = None
            return res
        if k == 'true':
            return True
        if k == 'false':
            return False
        if k in ('eq', 'ne'):
            a, b = f.a
            da, db = self.tdom(a), self.tdom(b)
            if not C.inter(da, db):
                return k == 'ne'
            if da is db and da.size() == 1:
                return k == 'eq'
            return None
        op, l = f.a
        lo, hi = lin_range(self, l)
        if lo is None:
            return None
        if op == '<=':
            return True if hi <= 0 else False if lo > 0 else None
        if lo > 0 or hi < 0:
            return op == '!='
        if lo == hi == 0:
            return op == '=='
        return None

    def tdom(self, t):
        if t.base is not None:
            return t.fn.image(self.tdom(t.base))
        d = self.dom.get(t)
        if d is None:
            self.declare(t)
            d = t.dom
        return d

    def simp(self, f):
        k = f.k
        if k == 'or':
            out = []
            for x in f.a:
                r = self.ev(x)
                if r is True:
                    return TRUE
                if r is None:
                    out.append(x)
            return OR(out)
        r = self.ev(f)
        return TRUE if r is True else FALSE if r is False else f

    # -- finding models
    def find(self, f):
        """A model of the path condition and f, or None."""
        for v in fvars(f):
            self.declare(v)
        if not self.no_fast:
            r = self.patch(f, 4)
            if r is not None:
                if r is False:
                    self.stats.domain_decided += 1
                    return None
                self.stats.model_reuse += 1
                return r
        return self.complete(self.solver.check(self, f), f)

    def complete(self, m, f):
        if m is None:
            return None
        mm = dict(self.model)
        mm.update(m)
        # the interval reasoning and z3 have to agree on the model
        for v in self.vars:
            if not mm[v] in self.dom[v]:
                raise RuntimeError('model check failed: %r' % (v,))
        for cl in self.clauses:
            if not fval(cl, mm):
                raise RuntimeError('model check failed: %r %r' % (cl, mm))
        if not fval(f, mm):
            raise RuntimeError('model check failed: %r' % (f,))
        return mm

    def patch(self, f, tries):
        """Try to repair the current model so that it satisfies f.
        Returns a model, False when f contradicts the unary domains, None when unsure."""
        m = self.model
        k = f.k
        if k == 'or':
            allfalse = True
            for x in f.a[:24]:
                r = self.patch(x, tries)
                if r:
                    return r
                if r is None:
                    allfalse = False
            return False if allfalse and len(f.a) <= 24 else None
        if k == 'and':
            lits = f.a
        else:
            lits = (f,)
        new = {}
        rest = []
        for x in lits:
            if x.k == 'in':
                v, s = x.a
                d = C.inter(self.dom[v], s)
                if not d:
                    return False
                if m[v] not in d:
                    new[v] = d
            elif x.k == 'false':
                return False
            else:
                rest.append(x)
        for salt in range(tries):
            mm = dict(m)
            for v, d in new.items():
                mm[v] = pick(d, salt * 11 + len(mm))
            for x in rest:
                if x.k == 'eq' and not fval(x, mm):
                    a, b = x.a
                    if a.base is None and b.base is None:
                        if mm[b] in self.dom[a] and a not in new:
                            mm[a] = mm[b]
                        elif mm[a] in self.dom[b] and b not in new:
                            mm[b] = mm[a]
                elif x.k == 'ne' and not fval(x, mm):
                    a, b = x.a
                    for t in (a, b):
                        if t.base is None and t not in new:
                            mm[t] = pick(self.dom[t], salt * 13 + 5)
                            if fval(x, mm):
                                break
            changed = {v for v in mm if mm[v] != m.get(v)}
            ok = all(fval(x, mm) for x in lits)
            if ok:
                for v in changed:
                    if not (mm[v] in self.dom[v]):
                        ok = False
                        break
                    for cl in self.cindex.get(v, ()):
                        if not fval(cl, mm):
                            ok = False
                            break
                    if not ok:
                        break
            if ok:
                return mm
            if not new and not rest:
                break
        return None

    # -- branching
    def branch(self, f):
        if self.dead is not None:
            raise self.dead
        k = f.k
        if k == 'true':
            return True
        if k == 'false':
            return False
        for v in fvars(f):
            if v not in self.declared:
                self.declare(v)
        r = self.ev(f)
        if r is not None:
            if self.no_fast and self.pos >= len(self.script):
                # cross-check the interval verdict with z3
                m = self.solver.check(self, NOT(f) if r else f)
                if m is not None:
                    raise RuntimeError('interval verdict differs from z3: %r' % (f,))
            self.stats.domain_decided += 1
            return r
        i = self.pos
        self.pos += 1
        if i < len(self.script):
            d = self.script[i]
            self.decisions.append(d)
            self.rerun(f if d else NOT(f))
            return d
        self.stats.branches += 1
        v = fval(f, self.model)
        other = NOT(f) if v else f
        om = self.find(other)
        if om is not None:
            self.queue.append((self.decisions + [not v], om))
        self.decisions.append(v)
        self.assume(f if v else NOT(f))
        return v

    def rerun(self, f):
        """a decision of the script: the model that came with it has to agree"""
        if self.given and not fval(f, self.model):
            raise RuntimeError('the path asks something else than before: %r' % (f,))
        self.assume(f)

    def choose(self, opts):
        """opts: mutually exclusive, jointly exhaustive formulas.  Index of the one this path takes."""
        if self.dead is not None:
            raise self.dead
        live = []
        for i, f in enumerate(opts):
            r = self.ev(f)
            if r is True:
                self.stats.domain_decided += 1
                return i
            if r is None:
                live.append(i)
        if len(live) == 1:
            self.stats.domain_decided += 1
            self.assume(opts[live[0]])
            return live[0]
        if not live:
            raise RuntimeError('choice without a possible option')
        n = self.pos
        self.pos += 1
        if n < len(self.script):
            d = self.script[n]
            self.decisions.append(d)
            self.rerun(opts[d])
            return d
        self.stats.branches += 1
        for i in live:
            for v in fvars(opts[i]):
                self.declare(v)
        take = [i for i in live if fval(opts[i], self.model)]
        if len(take) != 1:
            raise RuntimeError('options of a choice overlap or do not cover: %r' % (take,))
        take = take[0]
        for i in live:
            if i != take:
                om = self.find(opts[i])
                if om is not None:
                    self.queue.append((self.decisions + [i], om))
        self.decisions.append(take)
        self.assume(opts[take])
        return take

    def abort(self, exc):
        self.dead = exc
        raise exc

    def prove(self, f):
        """Is f true on all inputs of this path?  None if so, otherwise a model falsifying it."""
        self.stats.assertions += 1
        n = NOT(f)
        if n.k == 'false':
            self.stats.assert_static += 1
            return None
        for v in fvars(n):
            self.declare(v)
        self.stats.assert_z3 += 1
        return self.complete(self.solver.check(self, n), n)


def ctx():
    return Ctx.cur
