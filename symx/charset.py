"""Interned sets of code points, as sorted tuples of disjoint closed intervals."""
import re
import sys

MAXCP = 0x10FFFF
_intern = {}


class CS:
    __slots__ = ('iv', 'id', '_size')

    def __repr__(self):
        return 'CS(%s)' % ','.join(
            (repr(chr(a)) if a == b else '%r-%r' % (chr(a), chr(b))) for a, b in self.iv[:8]
        )

    def __contains__(self, cp):
        iv = self.iv
        lo, hi = 0, len(iv)
        while lo < hi:
            mid = (lo + hi) // 2
            a, b = iv[mid]
            if cp < a:
                hi = mid
            elif cp > b:
                lo = mid + 1
            else:
                return True
        return False

    def __bool__(self):
        return bool(self.iv)

    def size(self):
        if self._size is None:
            self._size = sum(b - a + 1 for a, b in self.iv)
        return self._size

    def __iter__(self):
        for a, b in self.iv:
            yield from range(a, b + 1)

    def min(self):
        return self.iv[0][0]


def mk(iv):
    iv = tuple(iv)
    s = _intern.get(iv)
    if s is None:
        s = CS()
        s.iv = iv
        s.id = len(_intern)
        s._size = None
        _intern[iv] = s
    return s


def norm(pairs):
    out = []
    for a, b in sorted(pairs):
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1][1] = b
        else:
            out.append([a, b])
    return mk((a, b) for a, b in out)


EMPTY = mk(())
ALL = mk(((0, MAXCP),))

_single = {}


def one(ch):
    cp = ch if isinstance(ch, int) else ord(ch)
    s = _single.get(cp)
    if s is None:
        s = _single[cp] = mk(((cp, cp),))
    return s


def rng(a, b):
    return mk(((a if isinstance(a, int) else ord(a), b if isinstance(b, int) else ord(b)),))


def of(chars):
    return norm([(ord(c), ord(c)) for c in chars])


_mi, _mc, _mu = {}, {}, {}


def compl(s):
    r = _mc.get(s.id)
    if r is None:
        out = []
        p = 0
        for a, b in s.iv:
            if a > p:
                out.append((p, a - 1))
            p = b + 1
        if p <= MAXCP:
            out.append((p, MAXCP))
        r = mk(out)
        _mc[s.id] = r
        _mc[r.id] = s
    return r


def inter(x, y):
    if x is y:
        return x
    if x is ALL:
        return y
    if y is ALL:
        return x
    k = (x.id, y.id) if x.id < y.id else (y.id, x.id)
    r = _mi.get(k)
    if r is None:
        out = []
        i = j = 0
        X, Y = x.iv, y.iv
        while i < len(X) and j < len(Y):
            a = max(X[i][0], Y[j][0])
            b = min(X[i][1], Y[j][1])
            if a <= b:
                out.append((a, b))
            if X[i][1] < Y[j][1]:
                i += 1
            else:
                j += 1
        r = _mi[k] = mk(out)
    return r


def union(x, y):
    if x is y:
        return x
    k = (x.id, y.id) if x.id < y.id else (y.id, x.id)
    r = _mu.get(k)
    if r is None:
        r = _mu[k] = norm(x.iv + y.iv)
    return r


def minus(x, y):
    return inter(x, compl(y))


def subset(x, y):
    return x is y or inter(x, y) is x


_cat = {}
_SUR = [(0xD800, 0xDFFF)]
UNICODE = compl(mk(_SUR))        # every code point a well-formed text can hold


def from_pred(name, pred):
    s = _cat.get(name)
    if s is None:
        out = []
        start = None
        for cp in range(MAXCP + 1):
            if pred(chr(cp)):
                if start is None:
                    start = cp
            elif start is not None:
                out.append((start, cp - 1))
                start = None
        if start is not None:
            out.append((start, MAXCP))
        s = _cat[name] = mk(out)
    return s


def from_re(pat, flags=0):
    """The set of characters a one-character pattern matches (asked of the real re module)."""
    key = ('re', pat, flags)
    s = _cat.get(key)
    if s is None:
        allc = ''.join(map(chr, range(MAXCP + 1)))
        p = re.compile('(?:%s)+' % pat, flags | re.DOTALL)
        s = _cat[key] = norm([(m.start(), m.end() - 1) for m in p.finditer(allc)])
    return s


def isspace():
    return from_re(r'\s')      # str.isspace and \s agree (checked in selftest)


def isword():
    return from_re(r'\w')


def isdecimal():
    return from_re(r'\d')


def method_set(name):
    return from_pred('str.' + name, lambda c: getattr(c, name)())


_map_cache = {}


def char_map(name):
    """{cp: mapped string} for str.lower/upper/casefold, only where it changes the character."""
    m = _map_cache.get(name)
    if m is None:
        f = getattr(str, name)
        m = _map_cache[name] = {cp: f(chr(cp)) for cp in range(MAXCP + 1) if f(chr(cp)) != chr(cp)}
    return m


LINEBREAKS = of('\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029')
ASCII = rng(0, 127)
LETTERS = union(rng('a', 'z'), rng('A', 'Z'))
DIGITS = rng('0', '9')
ALNUM = union(LETTERS, DIGITS)
