"""str(), repr(), format(), % and f-strings over symbolic values."""
import re
import string
import types

from . import charset as C
from . import core
from .core import IN
from .symstr import S, SymBool, SymInt, SymStr, atom_in, atoms_of, br, conc_str, deep_sym, int_str, ra


def has_sym(x, depth=4):
    if isinstance(x, (SymStr, SymInt, SymBool)):
        return True
    if not depth:
        return False
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(y, depth - 1) for y in list(x))
    if isinstance(x, dict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in list(x.items()))
    if isinstance(x, BaseException):
        return any(has_sym(y, depth - 1) for y in x.args)
    return False


def has_obj(x, depth=4):
    """is there something in it whose repr() is Python code?"""
    if not depth:
        return False
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(has_obj(y, depth - 1) for y in list(x))
    if isinstance(x, dict):
        return any(has_obj(k, depth - 1) or has_obj(v, depth - 1) for k, v in list(x.items()))
    return isinstance(type(x).__repr__, types.FunctionType)


class BadInt:
    """the message of int(), made when somebody wants to see it"""

    def __init__(self, text, base):
        self.text, self.base = text, base

    def __str__(self):
        return fstr('invalid literal for int() with base %d: ' % self.base, (to_repr(self.text), 's', ''))


def to_str(x):
    if type(x) is str or isinstance(x, SymStr):
        return x
    if isinstance(x, SymInt):
        return int_str(x)
    if isinstance(x, SymBool):
        return 'True' if x else 'False'
    if isinstance(x, (int, float, type(None), type)):
        return str(x)
    if isinstance(x, str):
        return str(x)
    if isinstance(x, BaseException):
        m = type(x).__str__
        if m is BaseException.__str__ or m is Exception.__str__ or m is AttributeError.__str__:
            if not x.args:
                return ''
            if len(x.args) == 1:
                return to_str(x.args[0])
            return to_repr(x.args)
        if m is KeyError.__str__:
            return to_repr(x.args[0]) if len(x.args) == 1 else to_repr(x.args)
        if isinstance(m, types.FunctionType):
            return m(x)
        return str(x)
    m = type(x).__str__
    if isinstance(m, types.FunctionType):
        return m(x)
    if m is object.__str__ or has_sym(x):
        return to_repr(x)
    return str(x)


def to_repr(x):
    if type(x).__name__ == '_Key':
        x = x.s
    if isinstance(x, SymStr):
        return repr_str(x)
    if isinstance(x, SymInt):
        return int_str(x)
    if isinstance(x, SymBool):
        return 'True' if x else 'False'
    if isinstance(x, (str, int, float, type(None), type)):
        return repr(x)
    m = type(x).__repr__
    if isinstance(m, types.FunctionType) and type(x).__module__.split('.')[0] != 'symx':
        return m(x)
    if not has_sym(x) and not has_obj(x):
        return repr(x)
    if isinstance(x, list):
        return S(atoms_of('[')) + join_(', ', [to_repr(y) for y in x]) + ']'
    if isinstance(x, tuple):
        if len(x) == 1:
            return '(' + to_repr(x[0]) + ',)'
        return '(' + join_(', ', [to_repr(y) for y in x]) + ')'
    if isinstance(x, dict):
        return '{' + join_(', ', [to_repr(k) + ': ' + to_repr(v) for k, v in list(x.items())]) + '}'
    if isinstance(x, (set, frozenset)):
        return '{' + join_(', ', [to_repr(y) for y in x]) + '}'
    if isinstance(x, BaseException):
        return type(x).__name__ + to_repr(tuple(x.args))
    return repr(x)


def join_(sep, parts):
    out = []
    for i, p in enumerate(parts):
        if i:
            out.extend(sep)
        out.extend(atoms_of(p))
    return S(tuple(out))


def repr_str(s):
    a = ra(s)
    from .symstr import lift
    q = "'"
    s2 = lift(S(a))
    if s2.contains("'") and not s2.contains('"'):
        q = '"'
    out = [q]
    esc = C.union(C.of('\\\n\r\t' + q), C.compl(C.method_set('isprintable')))
    for x in a:
        if type(x) is str:
            if x == q or x == '\\':
                out.extend('\\' + x)
            elif x in '\'"':
                out.append(x)
            else:
                out.extend(repr(x)[1:-1])
        elif br(IN(x, esc)):
            for ch in (q, '\\', '\n', '\r', '\t'):
                if br(IN(x, C.one(ch))):
                    out.extend('\\' + ch if ch in (q, '\\') else repr(ch)[1:-1])
                    break
            else:
                if x.base is not None:
                    out.extend(repr(conc_str(S((x,))))[1:-1])
                    continue
                k, n, t = (('x', 2, 'u') if br(IN(x, C.rng(0, 0xff))) else ('u', 4, 'u') if br(IN(x, C.rng(0, 0xffff))) else ('U', 8, 'r'))
                out.extend('\\' + k)
                out.extend(core.derive('hex-%s%d' % (t, i), x) for i in reversed(range(n)))
        else:
            out.append(x)
    out.append(q)
    return S(tuple(out))


_spec = re.compile(r'^(?:(.)?([<>^=]))?([-+ ]?)(#?)(0?)(\d*)(?:\.(\d+))?([sdxXn]?)$', re.S)


def fmt_value(x, spec):
    if isinstance(spec, SymStr):
        spec = conc_str(spec)
    if not has_sym(x, 1) and not isinstance(x, BaseException):
        if spec == '' and not isinstance(x, (str, int, float)):
            return to_str(x)
        return format(x, spec)
    if spec == '':
        return to_str(x)
    m = _spec.match(spec)
    if not m:
        return format(conc_str(to_str(x)), spec)
    fill, align, sign, alt, zero, width, prec, typ = m.groups()
    if isinstance(x, SymInt):
        if typ in ('', 'd') and not sign and not alt:
            t = int_str(x)
            if zero and not align:
                from .symstr import lift
                return lift(t).zfill(int(width or 0))
            align = align or '>'
        else:
            return format(x.__index__(), spec)
    elif isinstance(x, SymBool):
        return format(bool(x), spec)
    else:
        t = to_str(x)
        if typ not in ('', 's'):
            raise ValueError("Unknown format code '%s' for object of type 'str'" % typ)
    if prec:
        t = t[:int(prec)]
    w = int(width or 0)
    k = w - len(t) if w else 0
    if k > 0:
        fill = fill or ' '
        if align == '>':
            t = fill * k + t
        elif align == '^':
            t = fill * (k // 2) + t + fill * (k - k // 2)
        else:
            t = t + fill * k
    return t


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.extend(p)
            continue
        v, conv, spec = p
        if conv == 'r':
            v = to_repr(v)
        elif conv == 's':
            v = to_str(v)
        elif conv == 'a':
            v = ascii(conc_str(v) if isinstance(v, SymStr) else v)
        out.extend(atoms_of(fmt_value(v, spec)))
    return S(tuple(out))


_pct = re.compile(r'%(?:\((?P<key>[^()]*)\))?(?P<flags>[-+ #0]*)(?P<width>\*|\d*)(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<typ>.)', re.S)


def percent(f, args):
    if type(f) is str and not has_sym(args) and not _py_str(args):
        return f % args
    syms = ()
    if isinstance(f, SymStr):
        f, syms = _template(f)
    out = []
    pos = 0
    if not isinstance(args, (tuple, dict)):
        seq = (args,)
    else:
        seq = args if isinstance(args, tuple) else None
    i = 0
    while True:
        j = f.find('%', pos)
        if j < 0:
            out.extend(f[pos:])
            break
        out.extend(f[pos:j])
        m = _pct.match(f, j)
        if not m:
            raise ValueError('incomplete format')
        pos = m.end()
        typ = m.group('typ')
        if typ == '%':
            out.append('%')
            continue
        width = m.group('width')
        if m.group('key') is not None:
            if not isinstance(args, dict):
                raise TypeError('format requires a mapping')
            v = args[m.group('key')]
            i = 1
        else:
            if seq is None:
                seq = (args,)
            if width == '*':
                width = seq[i]
                i += 1
            if i >= len(seq):
                raise TypeError('not enough arguments for format string')
            v = seq[i]
            i += 1
        if typ in 'sra':
            t = to_str(v) if typ == 's' else to_repr(v)
            if m.group('prec'):
                t = t[:int(m.group('prec'))]
        elif typ in 'di' and isinstance(v, (SymInt, int)):
            t = int_str(v) if isinstance(v, SymInt) else str(int(v))
        elif isinstance(v, SymStr):
            raise TypeError('%%%s format: a real number is required, not str' % typ)
        else:
            if isinstance(v, (SymInt, SymBool)):
                v = int(v)
            t = ('%' + m.group('flags') + typ) % v
        w = int(width or 0)
        k = w - len(t) if w else 0
        if k > 0:
            if '-' in m.group('flags'):
                t = t + ' ' * k
            else:
                t = ('0' if '0' in m.group('flags') and typ in 'di' else ' ') * k + t
        out.extend(atoms_of(t))
    if seq is not None and i < len(seq) and not isinstance(args, dict):
        raise TypeError('not all arguments converted during string formatting')
    return S(tuple([x if type(x) is not str or not HOLE <= ord(x) < HOLE + len(syms) else syms[ord(x) - HOLE] for x in out]))


HOLE = 0x100000


def _template(f):
    """a format string with its symbolic characters (none of them a %) replaced by place holders"""
    a = ra(f)
    t, syms = '', []
    for x in a:
        if type(x) is not str:
            if br(atom_in(x, C.one('%'))):
                x = '%'
            else:
                syms.append(x)
                x = chr(HOLE + len(syms) - 1)
        elif ord(x) >= HOLE:
            return conc_str(f), ()
        t += x
    pos = 0
    while True:
        j = t.find('%', pos)
        if j < 0:
            return t, syms
        m = _pct.match(t, j)
        if not m or any(ord(x) >= HOLE for x in m.group(0)):
            # a directive that depends on symbolic characters
            return conc_str(S(a)), ()
        pos = m.end()


def _py_str(args):
    """objects whose __str__/__repr__ is python code that may return symbolic text"""
    if not isinstance(args, tuple):
        args = tuple(args.values()) if isinstance(args, dict) else (args,)
    for x in args:
        if not isinstance(x, (str, int, float, type(None))):
            return True
    return False


class _Fmt(string.Formatter):
    pass


def str_format(f, args, kw):
    out = []
    auto = 0
    for lit, name, spec, conv in string.Formatter().parse(f):
        out.extend(lit)
        if name is None:
            continue
        if name == '' or name[0] in '.[':
            name = str(auto) + name
            auto += 1
        first, rest = __import__('_string').formatter_field_name_split(name)
        obj = args[first] if isinstance(first, int) else kw[first]
        for is_attr, i in rest:
            obj = getattr(obj, i) if is_attr else obj[i]
        if conv == 'r':
            obj = to_repr(obj)
        elif conv == 's':
            obj = to_str(obj)
        if spec and '{' in spec:
            spec = str_format(spec, args, kw)
        out.extend(atoms_of(fmt_value(obj, spec)))
    return S(tuple(out))
