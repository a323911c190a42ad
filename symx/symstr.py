"""Symbolic strings, booleans and integers that stand in for str/bool/int in the code under test.

A SymStr is a tuple of atoms of known count.  An atom is
  * a concrete one-character str,
  * a Var (one symbolic character), or
  * a Piece: a string-valued function of one symbolic character, e.g. what ``escape`` makes of it.
"""
from . import charset as C
from . import core
from .core import AND, CMP, EQ, FALSE, IN, LT, NOT, OR, TRUE, Ctx, Lin, Var, derive, lin, lin_add, lin_mul


class Piece:
    """cells: tuple of (set, (atom, ...)) with disjoint sets covering var's static domain; atoms are
    concrete characters or the variable itself."""
    __slots__ = ('var', 'cells', 'id')
    table = {}

    def __repr__(self):
        return 'Piece(%s:%s)' % (self.var, ','.join('%r->%s' % (s, x) for s, x in self.cells))


def mkpiece(var, cells):
    merged = {}
    for s, x in cells:
        s = C.inter(s, var.dom)
        if s:
            merged[x] = C.union(merged[x], s) if x in merged else s
    if len(merged) == 1:
        (x,) = merged
        return x                    # a plain tuple of atoms
    if all(x == (var,) or (len(x) == 1 and isinstance(x[0], str) and s.size() == 1 and ord(x[0]) == s.min())
           for x, s in merged.items()):
        return (var,)
    cells = tuple(sorted(((s, x) for x, s in merged.items()), key=lambda t: t[0].min()))
    key = (var.id, tuple((s.id, tuple(a if isinstance(a, str) else a.id for a in x)) for s, x in cells))
    p = Piece.table.get(key)
    if p is None:
        p = Piece()
        p.var, p.cells, p.id = var, cells, len(Piece.table)
        Piece.table[key] = p
    return (p,)


def is_sym(x):
    return isinstance(x, (SymStr, SymInt, SymBool))


def deep_sym(x, depth=3):
    if isinstance(x, (SymStr, SymInt, SymBool)):
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(deep_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return getattr(x, 'sym', False) or any(deep_sym(y, depth - 1) for y in x.values())
    return False


def atoms_of(x):
    if isinstance(x, SymStr):
        return x.a
    if isinstance(x, str):
        return tuple(x)
    raise TypeError('expected str, got %r' % type(x).__name__)


def S(atoms):
    """A SymStr, or a plain str when every atom is concrete."""
    for x in atoms:
        if type(x) is not str:
            s = SymStr.__new__(SymStr)
            s.a = atoms if type(atoms) is tuple else tuple(atoms)
            s._k = None
            return s
    return ''.join(atoms)


def atom_in(x, cs):
    """formula: the (single character) atom is in cs"""
    if type(x) is str:
        return TRUE if ord(x) in cs else FALSE
    return IN(x, cs)


def atom_eq(x, y):
    if type(x) is str:
        if type(y) is str:
            return TRUE if x == y else FALSE
        return IN(y, C.one(x))
    if type(y) is str:
        return IN(x, C.one(y))
    return EQ(x, y)


def atom_lt(x, y):
    if type(x) is str:
        if type(y) is str:
            return TRUE if x < y else FALSE
        return IN(y, C.rng(ord(x) + 1, C.MAXCP)) if ord(x) < C.MAXCP else FALSE
    if type(y) is str:
        return IN(x, C.rng(0, ord(y) - 1)) if ord(y) else FALSE
    return LT(x, y)


def br(f):
    return Ctx.cur.branch(f)


class SymBool:
    __slots__ = ('f',)
    IS_SX = True

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return Ctx.cur.branch(self.f)

    def __and__(self, o):
        return mkbool(AND([self.f, tof(o)]))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(OR([self.f, tof(o)]))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(NOT(self.f))

    def __xor__(self, o):
        o = tof(o)
        return mkbool(OR([AND([self.f, NOT(o)]), AND([NOT(self.f), o])]))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return ~(self ^ o) if isinstance(o, SymBool) else (self if o else ~self)
        return bool(self) == o

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __repr__(self):
        return repr(bool(self))

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)


def tof(x):
    if isinstance(x, SymBool):
        return x.f
    return TRUE if x else FALSE


def mkbool(f):
    if f.k == 'true':
        return True
    if f.k == 'false':
        return False
    return SymBool(f)


def mkint(l, digits=None, neg=False):
    if not l.terms:
        return l.const
    i = SymInt.__new__(SymInt)
    i.l = l
    i.digits = digits
    i.neg = neg
    return i


class SymInt:
    __slots__ = ('l', 'digits', 'neg')
    IS_SX = True

    def _cmp(self, o, op):
        if isinstance(o, bool) or isinstance(o, int):
            o = Lin((), int(o))
        elif isinstance(o, SymInt):
            o = o.l
        elif isinstance(o, float):
            return None
        else:
            return None
        d = lin_add(self.l, o, -1)
        if op == '==':
            return CMP('==', d)
        if op == '!=':
            return CMP('!=', d)
        if op == '<=':
            return CMP('<=', d)
        if op == '<':
            return CMP('<=', lin_add(d, Lin((), 1)))
        if op == '>=':
            return NOT(CMP('<=', lin_add(d, Lin((), 1))))
        return NOT(CMP('<=', d))

    def __eq__(self, o):
        f = self._cmp(o, '==')
        return False if f is None else mkbool(f)

    def __ne__(self, o):
        f = self._cmp(o, '!=')
        return True if f is None else mkbool(f)

    def __lt__(self, o):
        f = self._cmp(o, '<')
        return NotImplemented if f is None else mkbool(f)

    def __le__(self, o):
        f = self._cmp(o, '<=')
        return NotImplemented if f is None else mkbool(f)

    def __gt__(self, o):
        f = self._cmp(o, '>')
        return NotImplemented if f is None else mkbool(f)

    def __ge__(self, o):
        f = self._cmp(o, '>=')
        return NotImplemented if f is None else mkbool(f)

    def _l(self, o):
        if isinstance(o, SymInt):
            return o.l
        if isinstance(o, int):
            return Lin((), int(o))
        return None

    def __add__(self, o):
        o = self._l(o)
        return NotImplemented if o is None else mkint(lin_add(self.l, o))
    __radd__ = __add__

    def __sub__(self, o):
        o = self._l(o)
        return NotImplemented if o is None else mkint(lin_add(self.l, o, -1))

    def __rsub__(self, o):
        o = self._l(o)
        return NotImplemented if o is None else mkint(lin_add(o, self.l, -1))

    def __neg__(self):
        return mkint(lin_mul(self.l, -1))

    def __mul__(self, o):
        if isinstance(o, int):
            return mkint(lin_mul(self.l, o))
        if isinstance(o, SymInt):
            return mkint(lin_mul(self.l, o.__index__()))
        if isinstance(o, (str, SymStr, list, tuple)):
            return o * self.__index__()
        return NotImplemented
    __rmul__ = __mul__

    def __bool__(self):
        return br(CMP('!=', self.l))

    def __index__(self):
        return conc_int(self)
    __int__ = __index__

    def __floordiv__(self, o):
        return self.__index__() // o

    def __mod__(self, o):
        return self.__index__() % o

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        return o % self.__index__()

    def __and__(self, o):
        return self.__index__() & o

    def __or__(self, o):
        return self.__index__() | o

    def __rshift__(self, o):
        return self.__index__() >> o

    def __lshift__(self, o):
        return self.__index__() << o

    def __abs__(self):
        return -self if self < 0 else self

    def __hash__(self):
        return hash(self.__index__())

    def __str__(self):
        raise core.GiveUp('str() of a symbolic int reached C code')
    __repr__ = __str__

    def __format__(self, spec):
        raise core.GiveUp('format() of a symbolic int reached C code')


INT_LIMIT = 4096
CONC_LIMIT = 40
CONC_FEW = 4


def conc_int(i):
    """Enumerate the values of a symbolic int by forking (bisection).

    What is asked must depend on the path alone, never on the current model: a path is run again from its decisions.
    """
    c = Ctx.cur
    lo, hi = core.lin_range(c, i.l)
    if hi - lo > INT_LIMIT:
        c.stats.concretized += 1
        c.abort(core.GiveUp('symbolic int with too many values'))
    while lo < hi:
        mid = (lo + hi) // 2
        if br(CMP('<=', lin_add(i.l, Lin((), mid), -1))):
            hi = mid
        else:
            lo = mid + 1
    return lo


def conc_str(s):
    """Give up symbolic treatment of a string: continue with one of its values (bounded)."""
    if isinstance(s, str):
        return s
    c = Ctx.cur
    s = simplify(resolve(s))
    if isinstance(s, str):
        return s
    c.stats.concretized += 1
    c.lossy = True
    out = []
    for x in s.a:
        if type(x) is str:
            out.append(x)
            continue
        d = c.tdom(x)
        if d.size() <= CONC_LIMIT:
            vals = list(d)
        else:
            vals = [v for v in [iv[0] for iv in d.iv][:CONC_FEW - 1] + [d.iv[-1][1]]]
            vals = sorted(set(vals))
        opts = [IN(x, C.rng(v, v)) for v in vals]
        if d.size() > len(vals):
            rest = d
            for v in vals:
                rest = C.minus(rest, C.rng(v, v))
            opts.append(IN(x, rest))
        k = c.choose(opts) if len(opts) > 1 else 0
        if k >= len(vals):
            c.abort(core.GiveUp('string handed to code the engine cannot follow'))
        out.append(chr(vals[k]))
    return ''.join(out)


def simplify(s):
    """replace characters whose value is forced on this path by that value"""
    if isinstance(s, str):
        return s
    c = Ctx.cur
    out = []
    for x in s.a:
        if type(x) is Var:
            d = c.tdom(x)
            if d.size() == 1:
                x = chr(d.min())
        out.append(x)
    return S(tuple(out))


def resolve_atoms(a):
    """Fork until no Piece is left."""
    if not any(type(x) is Piece for x in a):
        return a
    out = []
    for x in a:
        if type(x) is Piece:
            out.extend(pick_cell(x))
        else:
            out.append(x)
    return tuple(out)


def pick_cell(p):
    for s, x in p.cells[:-1]:
        if br(IN(p.var, s)):
            return x
    return p.cells[-1][1]


def resolve(s):
    """-> SymStr or str without Pieces"""
    if isinstance(s, SymStr):
        a = resolve_atoms(s.a)
        if a is not s.a:
            return S(a)
    return s


def ra(x):
    """atoms without Pieces"""
    return resolve_atoms(atoms_of(x))


def eq_formula(a, b):
    """Equality of two Piece-free atom tuples."""
    if len(a) != len(b):
        return FALSE
    fs = []
    for x, y in zip(a, b):
        f = atom_eq(x, y)
        if f is FALSE:
            return FALSE
        fs.append(f)
    return AND(fs)


def _ineq(x, ch, within=None):
    """x == ch as a formula, decided statically where the domains allow it"""
    if type(x) is str:
        return TRUE if x == ch else FALSE
    s = C.one(ch)
    if within is not None:
        s = C.inter(s, within)
    if x.base is None and not C.inter(Ctx.cur.tdom(x), s):
        return FALSE
    return IN(x, s) if within is not None else atom_eq(x, ch)


def match_at(a, i, n, k, memo):
    """formula: the atoms a[i:] (Pieces allowed) begin with the concrete characters n[k:]"""
    if k >= len(n):
        return TRUE
    if i >= len(a):
        return FALSE
    r = memo.get((i, k))
    if r is not None:
        return r
    x = a[i]
    if type(x) is Piece:
        fs = [_cell_match(x, s, e, 0, a, i, n, k, memo) for s, e in x.cells]
        r = OR([f for f in fs if f is not FALSE])
    else:
        r = _ineq(x, n[k])
        if r is not FALSE:
            r = AND([r, match_at(a, i + 1, n, k + 1, memo)])
    memo[i, k] = r
    return r


def _cell_match(x, s, e, off, a, i, n, k, memo):
    if x.var.base is None and not C.inter(Ctx.cur.tdom(x.var), s):
        return FALSE
    fs = [IN(x.var, s)]
    for y in e[off:]:
        if k >= len(n):
            break
        f = _ineq(y, n[k], None if type(y) is str else s)
        if f is FALSE:
            return FALSE
        fs.append(f)
        k += 1
    f = match_at(a, i + 1, n, k, memo)
    if f is FALSE:
        return FALSE
    fs.append(f)
    return AND(fs)


def starts_in(a, i, n, memo):
    """formula: an occurrence of n starts at a character of atom a[i]"""
    x = a[i]
    if type(x) is not Piece:
        return match_at(a, i, n, 0, memo)
    fs = []
    for s, e in x.cells:
        for off in range(len(e)):
            f = _cell_match(x, s, e, off, a, i, n, 0, memo)
            if f is not FALSE:
                fs.append(f)
    return OR(fs)


def occurs(a, n):
    """formula: the concrete needle n occurs in the atoms a"""
    memo = {}
    return OR([f for f in (starts_in(a, i, n, memo) for i in range(len(a))) if f is not FALSE])


def cut(a, n, limit):
    """the atoms between the first `limit` (or all) occurrences of the concrete needle n, leaving Pieces alone
    that cannot take part in an occurrence"""
    out = []
    cur = []
    todo = tuple(a)
    n = tuple(n)
    i = 0
    memo = {}
    while i < len(todo):
        if 0 <= limit <= len(out):
            cur.extend(todo[i:])
            break
        f = starts_in(todo, i, n, memo)
        x = todo[i]
        if f is FALSE:
            cur.append(x)
            i += 1
            continue
        if type(x) is Piece:
            todo = pick_cell(x) + todo[i + 1:]
            i = 0
            memo = {}
            continue
        if br(f):
            j, need = i, len(n)
            while need > 0:
                y = todo[j]
                if type(y) is Piece:
                    todo = todo[:j] + tuple(pick_cell(y)) + todo[j + 1:]
                    memo = {}
                    continue
                need -= 1
                j += 1
            out.append(tuple(cur))
            cur = []
            i = j
        else:
            cur.append(x)
            i += 1
    out.append(tuple(cur))
    return out


def expand_if(a, cs):
    """resolve the Pieces that can produce a character of cs; the others stay"""
    if not any(type(x) is Piece for x in a):
        return a
    out = []
    for x in a:
        if type(x) is Piece and may_have(x, cs):
            out.extend(pick_cell(x))
        else:
            out.append(x)
    return tuple(out)


def may_have(x, cs):
    for s, e in x.cells:
        d = s if x.var.base is not None else C.inter(Ctx.cur.tdom(x.var), s)
        if d:
            for y in e:
                if (ord(y) in cs) if type(y) is str else (y.base is not None or C.inter(d, cs)):
                    return True
    return False


def ain(x, cs):
    """atom_in for atoms after expand_if"""
    return FALSE if type(x) is Piece else atom_in(x, cs)


def str_eq(a, b):
    """Equality formula of two atom tuples, aligning Pieces structurally and forking only if needed."""
    while True:
        i = j = 0
        fs = []
        fork = None
        while i < len(a) or j < len(b):
            x = a[i] if i < len(a) else None
            y = b[j] if j < len(b) else None
            px, py = type(x) is Piece, type(y) is Piece
            if not px and not py:
                if x is None or y is None:
                    # leftovers: false unless they can all be empty pieces
                    rest = a[i:] + b[j:]
                    if not any(type(r) is Piece for r in rest) or any(type(r) is not Piece for r in rest):
                        return FALSE
                    for r in rest:
                        es = C.EMPTY
                        for s, e in r.cells:
                            if not e:
                                es = C.union(es, s)
                        fs.append(IN(r.var, es))
                    return AND(fs)
                f = atom_eq(x, y)
                if f is FALSE:
                    return FALSE
                fs.append(f)
                i += 1
                j += 1
                continue
            if x is y:
                i += 1
                j += 1
                continue
            if px and py and x.var is y.var:
                good = C.EMPTY
                okall = True
                for s, e in x.cells:
                    for t, g in y.cells:
                        st = C.inter(s, t)
                        if st:
                            if e == g:
                                good = C.union(good, st)
                            elif len(e) == len(g):
                                # may still be equal characterwise
                                h = st
                                for p, q in zip(e, g):
                                    if type(p) is str and type(q) is str:
                                        if p != q:
                                            h = C.EMPTY
                                    elif type(p) is str:
                                        h = C.inter(h, C.one(p))
                                    elif type(q) is str:
                                        h = C.inter(h, C.one(q))
                                good = C.union(good, h)
                            else:
                                # different lengths may re-align later: not structural
                                okall = False
                if okall or good:
                    dom = Ctx.cur.tdom(x.var)
                    if okall or not C.minus(dom, good):
                        f = IN(x.var, good)
                        if f is FALSE:
                            return FALSE
                        fs.append(f)
                        i += 1
                        j += 1
                        continue
            fork = x if px else y
            break
        if fork is None:
            return AND(fs)
        # cheap exit: what we have is already impossible
        if AND(fs) is FALSE:
            return FALSE
        e = pick_cell(fork)
        a = subst(a, fork, e)
        b = subst(b, fork, e)


def subst(a, p, e):
    if p not in a:
        return a
    out = []
    for x in a:
        if x is p:
            out.extend(e)
        else:
            out.append(x)
    return tuple(out)


WS = None


def ws():
    global WS
    if WS is None:
        WS = C.isspace()
    return WS


def piece_all_in(p, cs):
    """(set of var values where every char of the expansion is in cs,
        set where neither first nor last char is in cs) """
    allin = C.EMPTY
    none = C.EMPTY
    for s, e in p.cells:
        if not e:
            allin = C.union(allin, s)
            continue
        if len(e) == 1:
            x = e[0]
            h = s if type(x) is str and ord(x) in cs else C.EMPTY if type(x) is str else C.inter(s, cs)
            allin = C.union(allin, h)
            none = C.union(none, C.minus(s, h))
        elif all(type(x) is str for x in e):
            if all(ord(x) in cs for x in e):
                allin = C.union(allin, s)
            elif ord(e[0]) not in cs and ord(e[-1]) not in cs:
                none = C.union(none, s)
            else:
                return None
        else:
            return None
    return allin, none


def set_arg(chars):
    if chars is None:
        return ws()
    if isinstance(chars, str):
        return C.of(chars)
    return None


class SymStr:
    __slots__ = ('a', '_k')
    IS_SX = True

    # ---- basics
    def __len__(self):
        if any(type(x) is Piece for x in self.a):
            n = 0
            for x in self.a:
                if type(x) is Piece:
                    ls = {len(e) for s, e in x.cells}
                    if len(ls) > 1:
                        # fork the pieces; the same forks answer later uses on this path
                        return len(resolve_atoms(self.a))
                    n += ls.pop()
                else:
                    n += 1
            return n
        return len(self.a)

    def __bool__(self):
        if any(type(x) is not Piece for x in self.a):
            return True
        fs = []
        for x in self.a:
            es = C.EMPTY
            for c, e in x.cells:
                if e:
                    es = C.union(es, c)
            fs.append(IN(x.var, es))
        return br(OR(fs))

    def __hash__(self):
        raise core.GiveUp('hash of a symbolic string')

    def __str__(self):
        raise core.GiveUp('str() of a symbolic string reached C code')
    __repr__ = __str__

    def __format__(self, spec):
        raise core.GiveUp('format() of a symbolic string reached C code')

    def __eq__(self, o):
        if isinstance(o, (str, SymStr)):
            return mkbool(str_eq(self.a, atoms_of(o)))
        return False if not isinstance(o, (SymBool, SymInt)) else False

    def __ne__(self, o):
        if isinstance(o, (str, SymStr)):
            return mkbool(NOT(str_eq(self.a, atoms_of(o))))
        return True

    def _lt(self, o, strict):
        a, b = ra(self), ra(o)
        # lexicographic comparison as a formula
        f = TRUE if (len(a) < len(b) if strict else len(a) <= len(b)) else FALSE
        for x, y in reversed(list(zip(a, b))):
            f = OR([atom_lt(x, y), AND([atom_eq(x, y), f])])
        return mkbool(f)

    def __lt__(self, o):
        return self._lt(o, True) if isinstance(o, (str, SymStr)) else NotImplemented

    def __le__(self, o):
        return self._lt(o, False) if isinstance(o, (str, SymStr)) else NotImplemented

    def __gt__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return mkbool(NOT(tof(self._lt(o, False))))

    def __ge__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return mkbool(NOT(tof(self._lt(o, True))))

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return S(self.a + atoms_of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SymStr)):
            return S(atoms_of(o) + self.a)
        return NotImplemented

    def __mul__(self, n):
        return S(self.a * max(0, n.__index__()))
    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            st = tuple(None if x is None else x.__index__() for x in (i.start, i.stop, i.step))
            if st[2] in (None, 1) and any(type(x) is Piece for x in self.a):
                r = self._slice_pieces(st[0], st[1])
                if r is not None:
                    return r
            return S(ra(self)[slice(*st)])
        i = i.__index__()
        return S((ra(self)[i],))

    def _slice_pieces(self, lo, hi):
        """slices that stay inside a Piece-free prefix/suffix"""
        a = self.a
        n = len(a)
        first = next(i for i in range(n) if type(a[i]) is Piece)
        last = n - 1 - next(i for i in range(n) if type(a[n - 1 - i]) is Piece)
        tail = n - 1 - last
        if lo is None:
            lo = 0
        if hi is not None and hi >= 0 and lo >= 0 and hi <= first:
            return S(a[lo:hi])
        if lo >= 0 and lo <= first and (hi is None or (hi < 0 and -hi <= tail)):
            return S(a[lo:] if hi is None else a[lo:n + hi])
        if lo < 0 and -lo <= tail and hi is None:
            return S(a[n + lo:])
        return None

    def __iter__(self):
        for x in ra(self):
            yield S((x,))

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        n = atoms_of(o)
        if not n:
            return True
        if len(n) == 1 and type(n[0]) is str:
            cs = C.one(n[0])
            fs = []
            for x in self.a:
                if type(x) is Piece:
                    for s, e in x.cells:
                        for y in e:
                            if type(y) is str:
                                if ord(y) in cs:
                                    fs.append(IN(x.var, s))
                            else:
                                fs.append(IN(y, C.inter(s, cs)))
                else:
                    fs.append(atom_in(x, cs))
            return mkbool(OR(fs))
        if any(type(x) is Piece for x in self.a):
            if all(type(x) is str for x in n):
                return mkbool(occurs(self.a, n))
        a = ra(self)
        n = resolve_atoms(n)
        return mkbool(OR([eq_formula(a[i:i + len(n)], n) for i in range(len(a) - len(n) + 1)]))

    def __mod__(self, args):
        from . import fmt
        return fmt.percent(self, args)

    def __rmod__(self, o):
        from . import fmt
        return fmt.percent(o, self)

    # ---- searching
    def _bounds(self, start, end, n):
        start, end, _ = slice(start, end).indices(n)
        return start, end

    def find(self, sub, start=None, end=None):
        a, n = self.a, atoms_of(sub)
        if any(type(x) is Piece for x in a) and start is None and end is None:
            if n and all(type(x) is str for x in n) and not br(occurs(a, n)):
                return -1
        a, n = ra(self), resolve_atoms(n)
        lo, hi = self._bounds(start, end, len(a))
        if start is not None and start > len(a):
            return -1
        for i in range(lo, hi - len(n) + 1):
            if br(eq_formula(a[i:i + len(n)], n)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        a, n = ra(self), ra(sub)
        lo, hi = self._bounds(start, end, len(a))
        if start is not None and start > len(a):
            return -1
        for i in range(hi - len(n), lo - 1, -1):
            if br(eq_formula(a[i:i + len(n)], n)):
                return i
        return -1

    def index(self, sub, *b):
        r = self.find(sub, *b)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, *b):
        r = self.rfind(sub, *b)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        n = atoms_of(sub)
        if n and all(type(x) is str for x in n) and occurs(self.a, n) is FALSE:
            return 0
        a, n = ra(self), ra(sub)
        lo, hi = self._bounds(start, end, len(a))
        if not n:
            return hi - lo + 1
        c = 0
        i = lo
        while i + len(n) <= hi:
            if br(eq_formula(a[i:i + len(n)], n)):
                c += 1
                i += len(n)
            else:
                i += 1
        return c

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return mkbool(OR([tof(self.startswith(x, start, end)) for x in p]))
        n = atoms_of(p)
        if start is None and end is None and any(type(x) is Piece for x in self.a):
            if all(type(x) is str for x in n):
                return mkbool(match_at(self.a, 0, n, 0, {}))
            k = len(n)
            if k <= len(self.a) and not any(type(x) is Piece for x in self.a[:k] + n):
                return mkbool(eq_formula(self.a[:k], n))
        a, n = ra(self), resolve_atoms(n)
        lo, hi = self._bounds(start, end, len(a))
        if start is not None and start > len(a):
            return False
        if lo + len(n) > hi:
            return False
        return mkbool(eq_formula(a[lo:lo + len(n)], n))

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return mkbool(OR([tof(self.endswith(x, start, end)) for x in p]))
        n = atoms_of(p)
        if start is None and end is None and any(type(x) is Piece for x in self.a):
            k = len(n)
            if k <= len(self.a) and not any(type(x) is Piece for x in self.a[len(self.a) - k:] + n):
                return mkbool(eq_formula(self.a[len(self.a) - k:], n))
        a, n = ra(self), resolve_atoms(n)
        lo, hi = self._bounds(start, end, len(a))
        if lo + len(n) > hi:
            return False
        return mkbool(eq_formula(a[hi - len(n):hi], n))

    # ---- stripping
    def _edge(self, a, cs, fs):
        """number of leading atoms (of a) stripped; forks"""
        k = 0
        while k < len(a):
            x = a[k]
            if type(x) is Piece:
                h = piece_all_in(x, cs) if cs is not None else None
                if h is None:
                    return None
                if not br(IN(x.var, h[0])):
                    return k
            elif cs is not None:
                if not br(atom_in(x, cs)):
                    return k
            else:
                if not br(OR([atom_eq(x, y) for y in fs])):
                    return k
            k += 1
        return k

    def _strip(self, chars, left, right):
        cs = set_arg(chars)
        fs = None
        a = self.a
        if cs is None:
            fs = ra(chars)
            a = resolve_atoms(a)
        if left:
            k = self._edge(a, cs, fs)
            if k is None:
                a = resolve_atoms(a)
                k = self._edge(a, cs, fs)
            a = a[k:]
        if right:
            r = a[::-1]
            k = self._edge(r, cs, fs)
            if k is None:
                a = resolve_atoms(a)
                r = a[::-1]
                k = self._edge(r, cs, fs)
            a = a[:len(a) - k]
        return S(a)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self

    # ---- splitting
    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is not None:
            n = atoms_of(sep)
            if n and all(type(x) is str for x in n):
                return [S(x) for x in cut(self.a, n, maxsplit)]
        a = expand_if(self.a, ws()) if sep is None else ra(self)
        if sep is None:
            w = ws()
            i = 0
            n = len(a)
            while True:
                while i < n and br(ain(a[i], w)):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(S(a[i:]).rstrip())
                    break
                j = i
                while j < n and not br(ain(a[j], w)):
                    j += 1
                out.append(S(a[i:j]))
                i = j
            return out
        n = ra(sep)
        if not n:
            raise ValueError('empty separator')
        i = p = 0
        while i + len(n) <= len(a):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if br(eq_formula(a[i:i + len(n)], n)):
                out.append(S(a[p:i]))
                i += len(n)
                p = i
            else:
                i += 1
        out.append(S(a[p:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is not None:
            n = atoms_of(sep)
            if n and all(type(x) is str for x in n) and occurs(self.a, n) is FALSE:
                return [self]
        a = expand_if(self.a, ws()) if sep is None else ra(self)
        out = []
        if sep is None:
            w = ws()
            i = len(a)
            while True:
                while i > 0 and br(ain(a[i - 1], w)):
                    i -= 1
                if i <= 0:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    r = S(a[:i])
                    out.append(r.lstrip())
                    break
                j = i
                while j > 0 and not br(ain(a[j - 1], w)):
                    j -= 1
                out.append(S(a[j:i]))
                i = j
            return out[::-1]
        n = ra(sep)
        if not n:
            raise ValueError('empty separator')
        p = len(a)
        i = len(a) - len(n)
        while i >= 0:
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if br(eq_formula(a[i:i + len(n)], n)):
                out.append(S(a[i + len(n):p]))
                p = i
                i -= len(n)
            else:
                i -= 1
        out.append(S(a[:p]))
        return out[::-1]

    def splitlines(self, keepends=False):
        a = expand_if(self.a, C.LINEBREAKS)
        out = []
        p = i = 0
        n = len(a)
        while i < n:
            if br(ain(a[i], C.LINEBREAKS)):
                e = i
                if br(ain(a[i], C.one('\r'))) and i + 1 < n and br(ain(a[i + 1], C.one('\n'))):
                    i += 1
                i += 1
                out.append(S(a[p:i] if keepends else a[p:e]))
                p = i
            else:
                i += 1
        if p < n:
            out.append(S(a[p:]))
        return out

    def partition(self, sep):
        r = self.split(sep, 1)
        return (r[0], sep, r[1]) if len(r) == 2 else (self, '', '')

    def rpartition(self, sep):
        r = self.rsplit(sep, 1)
        return (r[0], sep, r[1]) if len(r) == 2 else ('', '', self)

    # ---- replacing
    def replace(self, old, new, count=-1):
        o = atoms_of(old)
        n = atoms_of(new)
        if len(o) == 1 and type(o[0]) is str and count == -1 and all(type(x) is str for x in n):
            out = []
            cs = C.one(o[0])
            for x in self.a:
                if type(x) is str:
                    out.extend(n if x == o[0] else (x,))
                    continue
                if type(x) is Var:
                    if x.base is not None or C.inter(Ctx.cur.tdom(x), cs) is C.EMPTY:
                        if x.base is not None and br(IN(x, cs)):
                            out.extend(n)
                        else:
                            out.append(x)
                        continue
                    cells = [(C.inter(x.dom, cs), n), (C.minus(x.dom, cs), (x,))]
                    out.extend(mkpiece(x, cells))
                    continue
                cells = []
                bad = False
                for s, e in x.cells:
                    parts = [(s, ())]
                    for y in e:
                        if type(y) is str:
                            add = n if y == o[0] else (y,)
                            parts = [(t, g + add) for t, g in parts]
                        else:
                            parts = [q for t, g in parts for q in
                                     ((C.inter(t, cs), g + n), (C.minus(t, cs), g + (y,))) if q[0]]
                    cells.extend(parts)
                out.extend(mkpiece(x.var, cells))
            return S(tuple(out))
        o = resolve_atoms(o)
        if o and all(type(x) is str for x in o) and any(type(x) is Piece for x in self.a):
            parts = cut(self.a, o, count)
            out = list(parts[0])
            for x in parts[1:]:
                out.extend(n)
                out.extend(x)
            return S(tuple(out))
        a = ra(self)
        out = []
        i = k = 0
        if not o:
            for x in a:
                if count < 0 or k < count:
                    out.extend(n)
                    k += 1
                out.append(x)
            if count < 0 or k < count:
                out.extend(n)
            return S(tuple(out))
        while i < len(a):
            if i + len(o) <= len(a) and (count < 0 or k < count) and br(eq_formula(a[i:i + len(o)], o)):
                out.extend(n)
                i += len(o)
                k += 1
            else:
                out.append(a[i])
                i += 1
        return S(tuple(out))

    def translate(self, table):
        out = []
        keys = sorted(k for k in table if isinstance(k, int)) if hasattr(table, 'keys') else None
        if keys is None:
            return conc_str(self).translate(table)
        ks = C.norm([(k, k) for k in keys])
        for x in self.a:
            if type(x) is Var and x.base is None and all(isinstance(table[k], (str, int, type(None))) for k in keys):
                cells = [(C.minus(x.dom, ks), (x,))]
                for k in keys:
                    v = table[k]
                    v = '' if v is None else chr(v) if isinstance(v, int) else v
                    cells.append((C.inter(x.dom, C.one(k)), tuple(v)))
                out.extend(mkpiece(x, cells))
            elif type(x) is str:
                v = table.get(ord(x), x) if hasattr(table, 'get') else x
                v = '' if v is None else chr(v) if isinstance(v, int) else v
                out.extend(atoms_of(v))
            else:
                return S(ra(self)).translate(table) if any(type(y) is Piece for y in self.a) \
                    else conc_str(self).translate(table)
        return S(tuple(out))

    def expandtabs(self, tabsize=8):
        a = ra(self)
        out = []
        col = 0
        for x in a:
            if br(atom_in(x, C.one('\t'))):
                k = tabsize - col % tabsize if tabsize > 0 else 0
                out.extend(' ' * k)
                col += k
            else:
                out.append(x)
                col = 0 if br(atom_in(x, C.of('\n\r'))) else col + 1
        return S(tuple(out))

    # ---- joining / padding
    def join(self, it):
        out = []
        first = True
        for x in it:
            if not first:
                out.extend(self.a)
            first = False
            out.extend(atoms_of(x))
        return S(tuple(out))

    def ljust(self, w, fill=' '):
        k = w - len(self)
        return S(self.a + atoms_of(fill) * k) if k > 0 else self

    def rjust(self, w, fill=' '):
        k = w - len(self)
        return S(atoms_of(fill) * k + self.a) if k > 0 else self

    def center(self, w, fill=' '):
        k = w - len(self)
        if k <= 0:
            return self
        left = k // 2 + (k & w & 1)
        return S(atoms_of(fill) * left + self.a + atoms_of(fill) * (k - left))

    def zfill(self, w):
        k = w - len(self)
        if k <= 0:
            return self
        a = ra(self)
        if a and br(atom_in(a[0], C.of('+-'))):
            return S(a[:1] + ('0',) * k + a[1:])
        return S(('0',) * k + a)

    # ---- case
    def _map(self, name):
        out = []
        for x in ra(self):
            if type(x) is str:
                out.extend(getattr(x, name)())
                continue
            mp = C.char_map(name)
            b = core.base(x)
            long = C.norm([(k, k) for k, v in mp.items() if len(v) != 1])
            if C.inter(Ctx.cur.tdom(x), long):
                done = False
                if br(IN(x, long)):
                    for k in C.inter(Ctx.cur.tdom(x), long):
                        if br(IN(x, C.one(k))):
                            out.extend(mp[k])
                            done = True
                            break
                    if done:
                        continue
            dm = core.dmap(name)
            if not C.inter(Ctx.cur.tdom(x), dm.touched):
                out.append(x)
            else:
                out.append(derive(name, x))
        return S(tuple(out))

    def lower(self):
        return self._map('lower')

    def upper(self):
        return self._map('upper')

    def casefold(self):
        return self._map('casefold')

    def capitalize(self):
        a = ra(self)
        if not a:
            return self
        h = S(a[:1])
        t = S(a[1:])
        return h.upper() + t.lower()

    def title(self):
        return conc_str(self).title()

    def swapcase(self):
        return conc_str(self).swapcase()

    # ---- predicates
    def _all(self, name):
        a = ra(self)
        if not a:
            return False
        cs = C.method_set(name)
        return mkbool(AND([atom_in(x, cs) for x in a]))

    def isspace(self):
        a = ra(self)
        return mkbool(AND([atom_in(x, ws()) for x in a])) if a else False

    def isdigit(self):
        return self._all('isdigit')

    def isdecimal(self):
        return self._all('isdecimal')

    def isnumeric(self):
        return self._all('isnumeric')

    def isalpha(self):
        return self._all('isalpha')

    def isalnum(self):
        return self._all('isalnum')

    def isprintable(self):
        a = ra(self)
        cs = C.method_set('isprintable')
        return mkbool(AND([atom_in(x, cs) for x in a]))

    def isascii(self):
        return mkbool(AND([atom_in(x, C.ASCII) for x in ra(self)]))

    def isidentifier(self):
        a = ra(self)
        if not a:
            return False
        first = C.from_pred('idstart', lambda c: c.isidentifier())
        rest = C.from_pred('idcont', lambda c: ('a' + c).isidentifier())
        return mkbool(AND([atom_in(a[0], first)] + [atom_in(x, rest) for x in a[1:]]))

    def isupper(self):
        a = ra(self)
        up = C.method_set('isupper')
        bad = C.from_pred('cased-not-upper', lambda c: c.islower() or c.istitle())
        return mkbool(AND([OR([atom_in(x, up) for x in a])] + [NOT(atom_in(x, bad)) for x in a]))

    def islower(self):
        a = ra(self)
        lo = C.method_set('islower')
        bad = C.from_pred('cased-not-lower', lambda c: c.isupper() or c.istitle())
        return mkbool(AND([OR([atom_in(x, lo) for x in a])] + [NOT(atom_in(x, bad)) for x in a]))

    def istitle(self):
        return conc_str(self).istitle()

    def format(self, *args, **kw):
        from . import fmt
        return fmt.str_format(conc_str(self), args, kw)

    def format_map(self, m):
        from . import fmt
        return fmt.str_format(conc_str(self), (), m)

    def encode(self, encoding='utf-8', errors='strict'):
        import codecs

        from . import shims
        n = codecs.lookup(encoding).name
        if not n.startswith('utf'):
            def held(c):
                try:
                    c.encode(n)
                except UnicodeError:
                    return False
                return True
            ok = C.from_pred('encoding ' + n, held)
            if not br(AND([atom_in(x, ok) for x in ra(self)])):
                if errors != 'strict':
                    raise core.GiveUp('encode with errors=' + errors)
                raise UnicodeEncodeError(encoding, 'x', 0, 1, 'not in this encoding')
        return shims.SymBytes(self, n, errors)


def lift(x):
    """str -> SymStr wrapper (even when concrete), to use the symbolic methods on it"""
    if isinstance(x, SymStr):
        return x
    s = SymStr.__new__(SymStr)
    s.a = tuple(x)
    s._k = None
    return s


class LazyStr(SymStr):
    """text that is only computed when somebody looks at it (debug messages)"""
    __slots__ = ('thunk', 'val')

    @property
    def a(self):
        if self.thunk is not None:
            self.val = self.thunk()
            self.thunk = None
        return self.val


def lazy(thunk):
    s = LazyStr.__new__(LazyStr)
    s.thunk = thunk
    s.val = None
    s._k = None
    return s


def model_str(x, m):
    """instantiate under a model"""
    if isinstance(x, str):
        return x
    out = []
    for y in x.a:
        if type(y) is str:
            out.append(y)
        elif type(y) is Var:
            out.append(chr(core.cval(y, m)))
        else:
            v = m[y.var] if y.var.base is None else core.cval(y.var, m)
            for s, e in y.cells:
                if v in s:
                    out.extend(z if type(z) is str else chr(core.cval(z, m)) for z in e)
                    break
    return ''.join(out)


# --------------------------------------------------------------------------- int()

def to_int(s, b=10):
    """int(s, b) for a SymStr"""
    s = resolve(s)
    if isinstance(s, str):
        return int(s, b)
    if b not in (10, 16):
        return int(conc_str(s), b)
    from . import fmt
    orig = s

    def fail():
        return ValueError(fmt.BadInt(orig, b))
    if b == 10 and s.a and not br(OR([atom_in(x, C.isdecimal()) for x in s.a])):
        raise fail()
    a = s.strip()
    a = atoms_of(a)
    neg = False
    if a and br(atom_in(a[0], C.of('+-'))):
        neg = br(atom_in(a[0], C.one('-')))
        a = a[1:]
    if b == 16 and len(a) >= 2 and br(atom_in(a[0], C.one('0'))) and br(atom_in(a[1], C.of('xX'))):
        a = a[2:]
        if a and br(atom_in(a[0], C.one('_'))):
            a = a[1:]
    if not a:
        raise fail()
    digits = []
    prev_us = True
    dec = C.isdecimal() if b == 10 else C.union(C.isdecimal(), C.of('abcdefABCDEF'))
    for i, x in enumerate(a):
        if br(atom_in(x, C.one('_'))):
            if prev_us:
                raise fail()
            prev_us = True
            continue
        prev_us = False
        if not br(atom_in(x, dec)):
            raise fail()
        digits.append(x)
    if prev_us:
        raise fail()
    if len(digits) > 4300:
        raise ValueError('Exceeds the limit')
    l = Lin()
    for x in digits:
        l = lin_mul(l, b)
        l = lin_add(l, Lin((), int(x, b)) if type(x) is str else Lin(((('d' if b == 10 else 'x', x), 1),), 0))
    if neg:
        l = lin_mul(l, -1)
    return mkint(l, digits=tuple(digits) if b == 10 else None, neg=neg)


def int_str(i):
    """str(int) for a SymInt"""
    if isinstance(i, int):
        return str(i)
    if i.digits is None:
        return new_digits(i)
    a = list(i.digits)
    zero = C.from_pred('digit zero', lambda c: c.isdecimal() and int(c) == 0)
    while len(a) > 1 and br(atom_in(a[0], zero)):
        a.pop(0)
    out = []
    for x in a:
        if type(x) is str:
            out.append(str(int(x)))
        else:
            out.append(x if C.subset(Ctx.cur.tdom(x), C.DIGITS) else derive('decimal', x))
    if i.neg and not (len(a) == 1 and br(atom_in(a[0], zero))):
        out.insert(0, '-')
    return S(tuple(out))


def new_digits(i):
    """its decimal digits as new characters"""
    c = Ctx.cur
    if br(CMP('<=', lin_add(i.l, Lin((), 1)))):
        return '-' + int_str(-i)
    n = 1
    while n < 40 and not br(CMP('<=', lin_add(i.l, Lin((), 10 ** n - 1), -1))):
        n += 1
    if n == 1:
        return str(i.__index__())
    l, out = i.l, []
    for k in range(n):
        v = core.mkvar('dec%d%s' % (k, i.l.name()), C.DIGITS if k else C.rng('1', '9'))
        if v not in c.declared:
            c.declare(v)
        out.append(v)
        l = lin_add(l, lin_mul(Lin(((('c', v), 1),), -48), 10 ** (n - 1 - k)), -1)
    c.require(CMP('==', l))
    return S(tuple(out))


def to_chr(i):
    if isinstance(i, int):
        return chr(i)
    c = Ctx.cur
    if br(CMP('<=', lin_add(i.l, Lin((), 1)))) or br(NOT(CMP('<=', lin_add(i.l, Lin((), C.MAXCP), -1)))):
        raise ValueError('chr() arg not in range(0x110000)')
    v = core.mkvar('chr' + i.l.name(), C.ALL)
    if v not in c.declared:
        c.declare(v)
        c.require(CMP('==', lin_add(i.l, Lin(((('c', v), 1),), 0), -1)))
    return S((v,))


def to_ord(s):
    a = ra(s)
    if len(a) != 1:
        raise TypeError('ord() expected a character')
    x = a[0]
    return ord(x) if type(x) is str else mkint(Lin(((('c', x), 1),), 0))
