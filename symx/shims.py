"""Builtins and small library pieces the rewritten code uses instead of the real ones."""
import builtins
import functools
import inspect
import io
import itertools
import json
import os
import pprint
import sys
import traceback
import types
import unicodedata
import warnings

from . import charset as C
from . import core, fmt
from .core import AND, CMP, EQ, FALSE, IN, NOT, OR, TRUE, Ctx, Lin, lin_add
from .symstr import (LazyStr, Piece, S, SymBool, SymInt, SymStr, atom_in, atoms_of, br, conc_int, conc_str, eq_formula,
                     lazy, lift, mkbool, mkint, mkpiece, ra, resolve, simplify, str_eq, to_chr, to_int, to_ord, tof)

has_sym = fmt.has_sym


# --------------------------------------------------------------------------- dict / set

class _Key:
    """hashable box for a symbolic key, by identity"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s


def key_find(keys, k):
    """the element of `keys` equal to k on this path, or None.  Branches."""
    if isinstance(k, SymStr):
        cands = []
        for x in keys:
            y = x.s if type(x) is _Key else x
            if y is k:
                return x
            if isinstance(y, (str, SymStr)):
                f = str_eq(k.a, atoms_of(y))
                if f.k == 'true':
                    return x
                if f.k != 'false':
                    cands.append((x, f))
    elif isinstance(k, SymInt):
        cands = []
        for x in keys:
            if isinstance(x, int):
                f = tof(k == x)
                if f.k == 'true':
                    return x
                if f.k != 'false':
                    cands.append((x, f))
    elif isinstance(k, str):
        cands = []
        for x in keys:
            if type(x) is _Key:
                f = str_eq(x.s.a, tuple(k))
                if f.k == 'true':
                    return x
                if f.k != 'false':
                    cands.append((x, f))
            elif x == k:
                return x
    else:
        for x in keys:
            if type(x) is not _Key and x == k:
                return x
        return None
    c = Ctx.cur
    cands = [(x, f) for x, f in cands if c.ev(f) is not False]
    if not cands:
        return None
    if len(cands) > 1 and not br(OR([f for x, f in cands])):
        return None
    for x, f in cands:
        if br(f):
            return x
    return None


def box(k):
    if isinstance(k, SymStr):
        k = simplify(resolve(k))
        return k if isinstance(k, str) else _Key(k)
    if isinstance(k, SymInt):
        return k.__index__()
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, tuple) and has_sym(k):
        return tuple(conc_str(x) if isinstance(x, SymStr) else x for x in k)
    return k


def unbox(k):
    return k.s if type(k) is _Key else k


_MISS = object()


class SxDict(dict):
    """dict that accepts symbolic string keys (compared by solver, kept in insertion order)"""
    __slots__ = ('sym',)

    def __init__(self, *a, **kw):
        dict.__init__(self)
        self.sym = False
        self.update(*a, **kw)

    def _look(self, k):
        if not self.sym and not isinstance(k, (SymStr, SymInt)):
            if isinstance(k, tuple) and has_sym(k):
                k = box(k)
            return k if dict.__contains__(self, k) else _MISS
        r = key_find(list(dict.keys(self)), k)
        return _MISS if r is None and not (k is None and dict.__contains__(self, None)) else r

    def __getitem__(self, k):
        r = self._look(k)
        if r is _MISS:
            raise KeyError(k)
        return dict.__getitem__(self, r)

    def __setitem__(self, k, v):
        r = self._look(k)
        if r is _MISS:
            r = box(k)
            if type(r) is _Key:
                self.sym = True
        dict.__setitem__(self, r, v)

    def __delitem__(self, k):
        r = self._look(k)
        if r is _MISS:
            raise KeyError(k)
        dict.__delitem__(self, r)

    def __contains__(self, k):
        return self._look(k) is not _MISS

    def get(self, k, d=None):
        r = self._look(k)
        return d if r is _MISS else dict.__getitem__(self, r)

    def pop(self, k, *d):
        r = self._look(k)
        if r is _MISS:
            if d:
                return d[0]
            raise KeyError(k)
        return dict.pop(self, r)

    def setdefault(self, k, d=None):
        r = self._look(k)
        if r is _MISS:
            self[k] = d
            return d
        return dict.__getitem__(self, r)

    def update(self, *a, **kw):
        if a:
            o = a[0]
            if isinstance(o, dict):
                for k in list(o.keys()):
                    self[k] = o[k] if not isinstance(o, SxDict) else o[k]
            elif hasattr(o, 'keys'):
                for k in o.keys():
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def keys(self):
        return [unbox(k) for k in dict.keys(self)] if self.sym else dict.keys(self)

    def items(self):
        return [(unbox(k), v) for k, v in dict.items(self)] if self.sym else dict.items(self)

    def __iter__(self):
        return iter(self.keys()) if self.sym else dict.__iter__(self)

    def __reversed__(self):
        return iter(list(self.keys())[::-1])

    def copy(self):
        return SxDict(self)
    __copy__ = copy

    def popitem(self):
        k, v = dict.popitem(self)
        return unbox(k), v

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        if not self.sym and not (isinstance(o, SxDict) and o.sym):
            fs = []
            for k, v in dict.items(self):
                if not dict.__contains__(o, k):
                    return False
                r = v == dict.__getitem__(o, k)
                fs.append(tof(r))
            return mkbool(AND(fs))
        o = o if isinstance(o, SxDict) else SxDict(o)
        for k, v in self.items():
            w = o.get(k, _MISS)
            if w is _MISS or not v == w:
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (~r if isinstance(r, SymBool) else not r)

    __hash__ = None

    def __or__(self, o):
        d = SxDict(self)
        d.update(o)
        return d

    def __ror__(self, o):
        d = SxDict(o)
        d.update(self)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    @classmethod
    def fromkeys(cls, it, v=None):
        d = cls()
        for k in it:
            d[k] = v
        return d

    def __repr__(self):
        return dict.__repr__(self)


class SxSet:
    """set with symbolic string members"""

    def __init__(self, it=()):
        self.d = SxDict()
        for x in it:
            self.d[x] = True

    def add(self, x):
        self.d[x] = True

    def discard(self, x):
        self.d.pop(x, None)

    def remove(self, x):
        del self.d[x]

    def __contains__(self, x):
        return x in self.d

    def __iter__(self):
        return iter(list(self.d.keys()))

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return len(self.d) > 0

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def copy(self):
        return SxSet(self)

    def union(self, *its):
        r = self.copy()
        r.update(*its)
        return r

    def __or__(self, o):
        return self.union(o)

    def __ror__(self, o):
        return SxSet(o).union(self)

    def difference(self, o):
        return SxSet(x for x in self if x not in SxSet(o))
    __sub__ = difference

    def intersection(self, o):
        o = o if isinstance(o, SxSet) else SxSet(o)
        return SxSet(x for x in self if x in o)
    __and__ = intersection

    def issubset(self, o):
        o = o if isinstance(o, SxSet) else SxSet(o)
        return all(x in o for x in self)
    __le__ = issubset

    def issuperset(self, o):
        return all(x in self for x in o)
    __ge__ = issuperset

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def clear(self):
        self.d = SxDict()

    def pop(self):
        for x in self:
            self.remove(x)
            return x
        raise KeyError('pop from an empty set')

    def __eq__(self, o):
        if not isinstance(o, (SxSet, set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and all(x in self for x in o)

    def __hash__(self):
        return hash(frozenset(self))

    def __repr__(self):
        return '{%s}' % ', '.join(map(repr, self)) if len(self) else 'set()'


# --------------------------------------------------------------------------- builtins that look at types

class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.kinds)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.kinds)

    def __repr__(cls):
        return repr(cls.kinds[0])

    def __getattr__(cls, n):
        return getattr(cls.kinds[0], n)

    def __eq__(cls, o):
        return cls is o or o is cls.kinds[0]

    def __hash__(cls):
        return hash(cls.kinds[0])

    def __or__(cls, o):
        return cls.kinds[0] | (o.kinds[0] if isinstance(o, _Meta) else o)


def maketrans(x, *a):
    if not a:
        return {ord(k) if isinstance(k, str) else k: v for k, v in x.items()}
    return str.maketrans(x, *a)


class _StrMeta(_Meta):
    def __call__(cls, x='', *a, **k):
        if a or k:
            return str(x, *a, **k)
        return fmt.to_str(x)

    @property
    def __name__(cls):
        return 'str'

    @property
    def join(cls):
        return lambda sep, it: str_call(sep, 'join', (it,), {})

    @property
    def maketrans(cls):
        return maketrans

    def __getattr__(cls, n):
        if n in STR_METHODS:
            return lambda s, *a, **k: str_call(s, n, a, k)
        return getattr(str, n)


class sxstr(metaclass=_StrMeta):
    kinds = (str, SymStr)


class _IntMeta(_Meta):
    def __call__(cls, x=0, *a, **k):
        if isinstance(x, SymStr):
            b = a[0] if a else k.get('base', 10)
            return to_int(x, b)
        if isinstance(x, SymInt):
            return x
        return int(x, *a, **k)

    @property
    def __name__(cls):
        return 'int'


class sxint(metaclass=_IntMeta):
    kinds = (int, SymInt, SymBool)


class _BoolMeta(_Meta):
    def __call__(cls, x=False):
        return x if isinstance(x, SymBool) else bool(x)

    @property
    def __name__(cls):
        return 'bool'


class sxbool(metaclass=_BoolMeta):
    kinds = (bool, SymBool)


class _DictMeta(_Meta):
    def __call__(cls, *a, **k):
        return SxDict(*a, **k)

    @property
    def __name__(cls):
        return 'dict'

    @property
    def fromkeys(cls):
        return SxDict.fromkeys


class sxdict(metaclass=_DictMeta):
    kinds = (dict,)


class _SetMeta(_Meta):
    def __call__(cls, it=()):
        return SxSet(it)

    @property
    def __name__(cls):
        return 'set'


class sxset(metaclass=_SetMeta):
    kinds = (set, SxSet)


class sxfrozenset(metaclass=_SetMeta):
    kinds = (frozenset, SxSet)


def sx_type(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    if isinstance(x, (str, SymStr)) and type(x) in (str, SymStr, LazyStr):
        return sxstr
    if type(x) in (int, SymInt):
        return sxint
    if type(x) in (bool, SymBool):
        return sxbool
    if type(x) in (dict, SxDict):
        return sxdict
    if type(x) in (set, SxSet):
        return sxset
    return type(x)


def sx_ord(x):
    return to_ord(x) if isinstance(x, SymStr) else ord(x)


def sx_chr(x):
    return to_chr(x) if isinstance(x, SymInt) else chr(x)


def sx_repr(x):
    return fmt.to_repr(x)


def sx_ascii(x):
    return ascii(conc_str(x) if isinstance(x, SymStr) else x)


def sx_format(x, spec=''):
    return fmt.fmt_value(x, spec)


console = None          # list of what was printed while a harness watches (see SymS.printed)


def sx_print(*a, **k):
    if console is None:
        return
    for x in a:
        fmt.to_str(x)
    console.append(k.get('file'))


def sx_print_stmt(thunk):
    if console is not None:
        thunk()


def sx_pformat(x, *a, **k):
    if not fmt.has_sym(x):
        return pprint.pformat(x, *a, **k)
    x = _snap(x)
    return lazy(lambda: atoms_of(fmt.to_repr(x)))


def sx_pprint(x, stream=None, *a, **k):
    sx_print(sx_pformat(x), file=stream)


def _attr_names(o):
    try:
        return dir(o)
    except Exception:
        return []


def sx_getattr(o, name, *default):
    if isinstance(name, SymStr):
        name = simplify(resolve(name))
        if isinstance(name, SymStr):
            if isinstance(o, types.ModuleType) and False:
                pass
            names = [n for n in _attr_names(o) if len(n) == len(name)]
            r = key_find(names, name)
            if r is None:
                if hasattr(type(o), '__getattr__'):
                    try:
                        return type(o).__getattr__(o, name)
                    except AttributeError:
                        pass
                if default:
                    return default[0]
                raise AttributeError("object has no such attribute (symbolic name)")
            name = r
    if default:
        try:
            return sx_attr(o, name)
        except AttributeError:
            return default[0]
    return sx_attr(o, name)


def sx_hasattr(o, name):
    try:
        sx_getattr(o, name)
        return True
    except AttributeError:
        return False


def sx_setattr(o, name, v):
    setattr(o, conc_str(name) if isinstance(name, SymStr) else name, v)


# --------------------------------------------------------------------------- operators

STR_METHODS = frozenset(n for n in dir(str) if not n.startswith('_'))
DICT_METHODS = frozenset(('get', 'pop', 'setdefault'))
HOOKED = STR_METHODS | DICT_METHODS


def str_call(o, name, args, kw):
    if isinstance(o, SymStr):
        return getattr(o, name)(*args, **kw)
    if name == 'join':
        args = (list(args[0]),)
        if any(isinstance(x, SymStr) for x in args[0]):
            return lift(o).join(args[0])
        return o.join(*args)
    if name in ('format', 'format_map'):
        if name == 'format':
            return fmt.str_format(o, args, kw)
        return fmt.str_format(o, (), args[0])
    for x in args:
        if isinstance(x, (SymStr, SymInt)) or (isinstance(x, tuple) and has_sym(x)):
            return getattr(lift(o), name)(*args, **kw)
    return getattr(o, name)(*args, **kw)


def sx_attr(o, name):
    t = type(o)
    if t is str:
        if name in STR_METHODS:
            return lambda *a, **k: str_call(o, name, a, k)
    elif t is dict and name in DICT_METHODS:
        def call(k, *d):
            if isinstance(k, SymStr):
                r = key_find(list(o), k)
                if r is None:
                    if d:
                        return d[0]
                    if name == 'pop':
                        raise KeyError(k)
                    return None
                k = r
            return getattr(o, name)(k, *d)
        return call
    return getattr(o, name)


def sx_in(x, c):
    if isinstance(c, SymStr):
        return c.contains(x)
    if isinstance(x, SymStr):
        if isinstance(c, str):
            if len(x.a) == 1 and type(x.a[0]) is Piece and all(type(y) is str for s, e in x.a[0].cells for y in e):
                return mkbool(OR([core.IN(x.a[0].var, s) for s, e in x.a[0].cells if ''.join(e) in c]))
            return lift(c).contains(x)
        if isinstance(c, (tuple, list)):
            fs = []
            for y in c:
                if isinstance(y, (str, SymStr)):
                    fs.append(str_eq(x.a, atoms_of(y)))
                elif x is y:
                    fs.append(TRUE)
            return mkbool(OR(fs))
        if isinstance(c, (SxDict, SxSet)):
            return x in c
        if isinstance(c, (dict, set, frozenset)) or type(c) in (type({}.keys()),):
            fs = []
            n = None if any(type(y) is Piece for y in x.a) else len(x.a)
            for y in c:
                if isinstance(y, str) and (n is None or len(y) == n):
                    fs.append(str_eq(x.a, tuple(y)))
            return mkbool(OR(fs))
    elif isinstance(x, SymInt):
        if isinstance(c, (tuple, list, set, frozenset, dict)) and not isinstance(c, SxDict):
            if len(c) > 40:
                # as a set of values of a single character when possible
                r = int_in(x, c)
                if r is not None:
                    return r
            return mkbool(OR([tof(x == y) for y in c if isinstance(y, (int, SymInt))]))
        if isinstance(c, range):
            if c.step == 1:
                return mkbool(AND([tof(x >= c.start), tof(x < c.stop)]))
            return mkbool(OR([tof(x == y) for y in c]))
    elif isinstance(c, (list, tuple)) and isinstance(x, str) and has_sym(c, 1):
        return mkbool(OR([str_eq(y.a, tuple(x)) if isinstance(y, SymStr) else TRUE if y == x else FALSE for y in c]))
    return x in c


def int_in(x, c):
    t = x.l.terms
    if len(t) == 1 and t[0][0][0] == 'c' and t[0][1] == 1:
        v = t[0][0][1]
        k = x.l.const
        return mkbool(IN(v, C.norm([(y - k, y - k) for y in c if isinstance(y, int) and 0 <= y - k <= C.MAXCP])))
    # intervals
    vals = sorted(y for y in c if isinstance(y, int))
    runs = []
    for y in vals:
        if runs and runs[-1][1] == y - 1:
            runs[-1][1] = y
        else:
            runs.append([y, y])
    return mkbool(OR([AND([tof(x >= a), tof(x <= b)]) for a, b in runs]))


def sx_not_in(x, c):
    r = sx_in(x, c)
    return ~r if isinstance(r, SymBool) else not r


def sx_getitem(o, k):
    if isinstance(k, SymStr) and isinstance(o, dict) and not isinstance(o, SxDict):
        ks = resolve(k)
        if isinstance(ks, SymStr):
            r = key_find([y for y in o if isinstance(y, str) and len(y) == len(ks)], ks)
            if r is None:
                raise KeyError(k)
            return o[r]
        k = ks
    elif isinstance(k, SymInt) and isinstance(o, dict) and not isinstance(o, SxDict):
        r = sx_in(k, o)
        if not r:
            raise KeyError(k)
        return o[k.__index__()]
    return o[k]


def sx_mod(l, r):
    if isinstance(l, (str, SymStr)):
        return fmt.percent(l, r)
    return l % r


def _snap(v):
    """the containers as they are now"""
    if type(v) in (list, tuple):
        return type(v)([_snap(x) for x in v])
    if type(v) in (dict, SxDict):
        return type(v)([(k, _snap(x)) for k, x in v.items()])
    return v


def sx_fstr(*parts):
    # repr() of characters forks a lot, and most of it is for debug messages nobody sees
    for p in parts:
        if type(p) is tuple:
            v = p[0]
            if (p[1] == 'r' and isinstance(v, SymStr)) or (type(v) in (list, tuple, dict, SxDict) and fmt.has_sym(v)):
                parts = [q if type(q) is str else (_snap(q[0]),) + tuple(q[1:]) for q in parts]
                if console is not None:     # somebody looks whether this raises
                    fmt.fstr(*[q for q in parts if type(q) is str or not (q[1] == 'r' or fmt.has_sym(q[0]))])
                return lazy(lambda: lift(fmt.fstr(*parts)).a)
    return fmt.fstr(*parts)


_names = []             # symbolic keyword names on their way into **kwargs


def sx_unkw(kw):
    """first thing in a function with **kwargs: put symbolic names back"""
    return SxDict([(_names[int(k[1:])] if k[:1] == '\x00' else k, v) for k, v in kw.items()])


def sx_kwargs(f, a, k):
    """f(*a, **k) where k may hold symbolic keys"""
    if not (isinstance(k, SxDict) and k.sym):
        return f(*a, **{x: k[x] for x in k.keys()})
    h = getattr(f, '__sx_kwcall__', None)
    if h is not None:
        return h(*a, k)
    conc = {}
    left = []
    names = None
    fn = f
    skip = 0
    try:
        if inspect.isclass(f):
            fn = f.__init__
            skip = 1
        elif inspect.ismethod(f):
            fn = f.__func__
            skip = 1
        elif not inspect.isfunction(f) and inspect.isfunction(getattr(type(f), '__call__', None)):
            fn = type(f).__call__
            skip = 1
        code = fn.__code__
        n = code.co_argcount
        names = list(code.co_varnames[code.co_posonlyargcount:n + code.co_kwonlyargcount])
        names = [x for i, x in enumerate(names) if not (i < skip)]
        varkw = bool(code.co_flags & inspect.CO_VARKEYWORDS)
    except AttributeError:
        names = None
    for key, v in k.items():
        if isinstance(key, str):
            conc[key] = v
            if names is not None and not varkw and key not in names:
                left.append(key)
            continue
        r = key_find(names, key) if names is not None else None
        if r is not None:
            conc[r] = v
        elif names is not None and not varkw:
            left.append(key)
        elif varkw and '__sx_unkw__' in code.co_names:
            conc['\x00%d' % len(_names)] = v
            _names.append(key)
        else:
            conc[conc_str(key)] = v
    if left:
        raise TypeError(fmt.fstr((fn.__qualname__, 's', ''), "() got an unexpected keyword argument '", (left[0], 's', ''), "'"))
    try:
        return f(*a, **conc)
    finally:
        del _names[:]


# --------------------------------------------------------------------------- library pieces

_uni = {}


def uni(name):
    """a function of unicodedata that gives one of a few texts for a character"""
    real = getattr(unicodedata, name)

    def f(ch):
        if isinstance(ch, str):
            return real(ch)
        ch = ra(ch)
        if len(ch) != 1 or type(ch[0]) is str:
            return real(''.join(ch))
        x = ch[0]
        if x.base is not None:
            return real(conc_str(S(ch)))
        if name not in _uni:
            table = {}
            for cp in range(C.MAXCP + 1):
                table.setdefault(real(chr(cp)), []).append((cp, cp))
            _uni[name] = {k: C.norm(v) for k, v in table.items()}
        return S(mkpiece(x, [(s, tuple(k)) for k, s in _uni[name].items()]))
    return f


class LazyLen:
    """the length of a text, for those who ask"""

    def __init__(self, x):
        self.x = x

    def __index__(self):
        return len(self.x)

    __int__ = __hash__ = __index__

    def __eq__(self, o):
        return len(self.x) == o

    def __lt__(self, o):
        return len(self.x) < o

    def __gt__(self, o):
        return len(self.x) > o

    def __add__(self, o):
        return len(self.x) + o

    __radd__ = __add__

    def __bool__(self):
        return len(self.x) != 0


class SymStringIO:
    def __init__(self, s='', newline='\n'):
        self.s = s
        self.p = 0
        self.w = []

    def _all(self):
        if self.w:
            self.s = lift(self.s[:self.p]) + S(tuple(itertools.chain.from_iterable(atoms_of(x) for x in self.w)))
            self.p = len(self.s)
            self.w = []
        return self.s

    def read(self, n=-1):
        s = self._all()
        if n is None or n < 0:
            r = s[self.p:]
            self.p = len(s)
        else:
            r = s[self.p:self.p + n]
            self.p = min(len(s), self.p + n)
        return r

    def readline(self):
        s = self._all()
        i = str_call(s, 'find', ('\n', self.p), {})
        e = len(s) if i < 0 else i + 1
        r = s[self.p:e]
        self.p = e
        return r

    def __iter__(self):
        while True:
            l = self.readline()
            if not len(l):
                return
            yield l

    def write(self, x):
        if not isinstance(x, (str, SymStr)):
            raise TypeError('string argument expected, got %r' % type(x).__name__)
        self.w.append(x)
        return LazyLen(x)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def getvalue(self):
        if self.s == '' and not self.p:
            # only written so far: no length is needed
            return S(tuple(itertools.chain.from_iterable(atoms_of(x) for x in self.w)))
        return self._all()

    def seek(self, p):
        self._all()
        self.p = p

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class ModProxy(types.ModuleType):
    """a real module with some names replaced"""

    def __init__(self, real, **over):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__['__real__'] = real
        for k, v in over.items():
            self.__dict__[k] = v

    def __getattr__(self, n):
        return getattr(self.__dict__['__real__'], n)


def json_dumps(o, *a, **k):
    if not has_sym(o):
        return json.dumps(o, *a, **k)
    if a or any(k.get(x) for x in k if x not in ('ensure_ascii', 'sort_keys')):
        raise core.GiveUp('json.dumps options')
    ea = k.get('ensure_ascii', True)

    def enc(x):
        if isinstance(x, SymStr):
            return json_str(x, ea)
        if isinstance(x, SymInt):
            return fmt.to_str(x)
        if isinstance(x, SymBool):
            return 'true' if x else 'false'
        if isinstance(x, (list, tuple)):
            return '[' + fmt.join_(', ', [enc(y) for y in x]) + ']'
        if isinstance(x, dict):
            return '{' + fmt.join_(', ', [enc(y) + ': ' + enc(z) for y, z in x.items()]) + '}'
        return json.dumps(x, ensure_ascii=ea)
    return enc(o)


_json_short = {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\r': '\\r', '\t': '\\t', '\b': '\\b', '\f': '\\f'}


def json_str(s, ensure_ascii=True):
    out = ['"']
    plain = C.minus(C.rng(32, 126), C.of('"\\'))
    if not ensure_ascii:
        plain = C.union(plain, C.rng(127, C.MAXCP))
    for x in ra(s):
        if type(x) is str:
            out.extend(json.dumps(x, ensure_ascii=ensure_ascii)[1:-1])
        elif x.base is None:
            # one Piece for everything ASCII, fork for the rest
            if ensure_ascii and not br(IN(x, C.rng(0, 127))):
                if br(IN(x, C.rng(0, 0xffff))):
                    ks = ('u',)
                else:
                    ks = ('h', 'l')
                for k in ks:
                    out.extend('\\u')
                    out.extend(core.derive('hex-%s%d' % (k, i), x) for i in (3, 2, 1, 0))
                continue
            cells = [(plain, (x,))]
            for cp in C.inter(C.minus(C.rng(0, 127), plain), x.dom):
                cells.append((C.one(cp), tuple(json.dumps(chr(cp), ensure_ascii=ensure_ascii)[1:-1])))
            rest = C.minus(x.dom, C.union(plain, C.rng(0, 127)))
            if rest:
                cells.append((rest, (x,)))   # excluded by the branch above
            out.extend(mkpiece(x, cells))
        elif br(IN(x, plain)):
            out.append(x)
        else:
            out.extend(json.dumps(conc_str(S((x,))), ensure_ascii=ensure_ascii)[1:-1])
    out.append('"')
    return S(tuple(out))


_SAFE = C.of('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~')


def quote(string, safe='/', encoding=None, errors=None):
    from urllib.parse import quote as q
    if not isinstance(string, SymStr):
        return q(string, safe, encoding, errors)
    keep = C.union(_SAFE, C.inter(C.of(safe), C.ASCII))
    out = []
    for x in ra(string):
        if type(x) is str:
            out.extend(q(x, safe, encoding, errors))
        elif br(IN(x, C.ASCII)):
            if x.base is not None:
                out.extend([x] if br(IN(x, keep)) else q(conc_str(S((x,))), safe))
                continue
            cells = [(C.union(keep, C.minus(x.dom, C.ASCII)), (x,))]
            for cp in C.inter(C.minus(C.ASCII, keep), x.dom):
                cells.append((C.one(cp), tuple('%%%02X' % cp)))
            out.extend(mkpiece(x, cells))
        else:
            out.extend(q(conc_str(S((x,))), safe, encoding, errors))
    return S(tuple(out))


class SymBytes:
    """result of SymStr.encode: only good for decoding again or being written"""

    def __init__(self, s, encoding='utf-8', errors='strict'):
        self.s, self.encoding, self.errors = s, encoding, errors

    def decode(self, encoding='utf-8', errors='strict'):
        return self.s

    def __getattr__(self, n):
        raise core.GiveUp('bytes of symbolic text')


class _Warnings(types.ModuleType):
    def warn(self, *a, **k):
        pass

    def __getattr__(self, n):
        return getattr(warnings, n)


def fake_format_exception(etype, value=None, tb=None, **k):
    if isinstance(etype, BaseException):
        value = etype
        etype = type(value)
    return ['Traceback (most recent call last):\n', fmt.fstr((etype.__name__, '', ''), ': ', (value, '', ''), '\n')]


def no_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return maxsize

    def deco(f):
        return f
    return deco


def fspath(p):
    return p if isinstance(p, SymStr) else os.fspath(p)


def make_builtins(loader):
    b = dict(builtins.__dict__)
    b.update(
        str=sxstr, int=sxint, bool=sxbool, dict=sxdict, set=sxset, frozenset=sxfrozenset, type=sx_type,
        ord=sx_ord, chr=sx_chr, repr=sx_repr, ascii=sx_ascii, format=sx_format, print=sx_print,
        getattr=sx_getattr, hasattr=sx_hasattr, setattr=sx_setattr,
        __import__=loader.import_,
        __sx_attr__=sx_attr, __sx_in__=sx_in, __sx_not_in__=sx_not_in, __sx_getitem__=sx_getitem,
        __sx_mod__=sx_mod, __sx_fstr__=sx_fstr, __sx_kw__=sx_kwargs, __sx_unkw__=sx_unkw, __sx_dict__=SxDict, __sx_set__=SxSet,
        __sx_Signal__=core.EngineSignal, __sx_print__=sx_print_stmt,
    )
    return b


def make_modules():
    from . import sre
    m = {}
    m['re'] = sre.ReModule()
    m['io'] = ModProxy(io, StringIO=SymStringIO)
    m['warnings'] = _Warnings('warnings')
    m['json'] = ModProxy(json, dumps=json_dumps)
    m['functools'] = ModProxy(functools, lru_cache=no_cache, cache=no_cache)
    m['os'] = ModProxy(os, fspath=fspath)
    m['traceback'] = ModProxy(traceback, format_exception=fake_format_exception)
    m['inspect'] = ModProxy(inspect)
    m['pprint'] = ModProxy(pprint, pformat=sx_pformat, pprint=sx_pprint, pp=sx_pprint)
    m['unicodedata'] = ModProxy(unicodedata, **{n: uni(n) for n in ('east_asian_width', 'category', 'bidirectional')})
    return m
