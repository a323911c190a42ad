"""C12: macro argument strings parse to exactly the written values."""
from harness import lib

BOUNDS = {
    'pair': 'one pair: every key of up to 3 (quick) / 4 (thorough) and value of up to 5 / 7 characters, written bare, in double or single quotes, blanks around',
    'pairs': 'two or three pairs: every key of up to 2 and value of up to 2 / 3 characters in every spelling',
    'free': 'every argument string of up to 6 / 7 characters against a reference parser',
    'number': 'every integer of up to 5 / 7 digits with sign, every keyword, every spelling; names one letter away from the keywords',
    'again': 'every value of up to 2 / 3 letters, parsed again after a call, a conversion or an error',
    'round': 'every dict of one (value of up to 5 / 7 characters) or two or three entries (up to 2 / 3), numbers, True, False and None included',
}
BLANK = ' \t\r\n'
KEY = r'[^ \t\r\n="\x27\\]'
KEYWORDS = {'True': True, 'False': False, 'None': None}
# what int() reads; a text that looks like that is no string for the parser
NUM = r'["\x27]*\s*[+-]?\d+(_?\d+)*\s*["\x27]*|["\x27\s]*[+-]?[\d_]+["\x27\s]*'


def cases(tier):
    q = tier == 'quick'
    out = []
    for s in range(3):
        out.append(('pair-%d' % s, 'pair', 3 if q else 4, 5 if q else 7, s))
        out.append(('number-%d' % s, 'number', 5 if q else 7, s))
    for a in range(3):
        for b in range(3):
            out.append(('pairs-%d%d' % (a, b), 'pairs', 2 if q else 3, a, b))
    for n in range(7 if q else 8):
        out.append(('free-%d' % n, 'free', n))
    out.append(('free3', 'pieces', 3 if q else 4))
    out.append(('again', 'again', 2 if q else 3))
    out.append(('nopair', 'nopair', 3 if q else 4))
    out.append(('round', 'round', 5 if q else 7))
    out.append(('rounds', 'rounds', 2 if q else 3))
    return out


def value(S, name, n, how):
    """a value that is a text for the parser, and its spelling"""
    cls = {0: r'[^ \t\r\n"\x27\\]', 1: lib.ANY, 2: r"[^\x27]"}[how]
    v = S.text(name, 0, n, cls)
    S.require(S.no(S.matches(r'[\s\S]*\d[\s\S]*', v)))
    S.require(S.no(S.matches('True|False|None', v)))
    return v, spell(v, how)


def spell(v, how):
    if how == 1:
        return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'
    if how == 2:
        return "'" + v + "'"
    return v


def again(S, n):
    """what was done with the dict of one call, or in a conversion, is not seen in the next one"""
    U = S.load('creole.shared.utils')
    k, v = S.choice('k', ['k', 'key']), S.text('v', 1, n, '[a-z]')
    src = k + '=' + v
    how = S.int('how', 0, 2)
    if how == 0:
        d = U.string2dict(src)
        d['more'] = 1
        d[k] = 2
    elif how == 1:
        S.load('creole').creole2html('a <<m ' + src + '>>b<</m>>', macros={'m': lambda **kw: ''}, verbose=0)
    else:
        try:
            U.string2dict(k)
        except ValueError:
            pass
    d = U.string2dict(src)
    S.observe('d', d)
    S.check(len(d) == 1 and list(d) == [k] and d[k] == v, 'exactly the written pair')
    e = {k: v}
    S.check(U.dict2string(e) == U.dict2string(e) and e == {k: v}, 'writing it does not change it')


def pair(S, nk, n, how):
    k = S.text('k', 0, nk, KEY)
    v, s = value(S, 'v', n, how)
    a = S.choice('a', ['', ' ', ' \n', '\t'])
    d = S.load('creole.shared.utils').string2dict(a + k + '=' + s + a)
    S.observe('d', d)
    S.check(len(d) == 1 and list(d) == [k] and d[k] == v, 'exactly the written pair')


def number(S, n, how):
    kind = S.choice('kind', ['int', 'word', 'near'])
    if kind == 'int':
        v = S.text('v', 1, n, '[0-9]')
        sign = S.choice('sign', ['', '-', '+'])
        d = S.load('creole.shared.utils').string2dict('k=' + spell(sign + v, how))
        S.check(type(d['k']) is int and d['k'] == int(sign + v), 'the integer of that spelling')
    elif kind == 'word':
        w = S.choice('w', ['True', 'False', 'None'])
        d = S.load('creole.shared.utils').string2dict('k=' + spell(w, how))
        S.check(d['k'] is KEYWORDS[w], 'True, False and None are those values')
    else:
        # one letter off, or in another case
        w = S.choice('w', ['True', 'False', 'None'])
        x = S.text('x', 1, 1, r'[^ \t\r\n"\x27\\]')
        i = S.int('i', 0, 5)
        S.require(i <= len(w))
        t = S.choice('t', [0, 1])
        S.require(i + t <= len(w))
        v = w[:i] + x + w[i + t:]
        S.require(S.no(v == w))
        d = S.load('creole.shared.utils').string2dict('k=' + spell(v, how))
        S.check(d['k'] == v, 'every other word is a text')
    S.check(list(d) == ['k'], 'one pair')


def pairs(S, n, a, b):
    u = S.load('creole.shared.utils')
    k1 = S.text('k1', 1, 2, KEY)
    k2 = S.text('k2', 0, 1, KEY)
    S.require(S.no(k1 == k2))
    v1, s1 = value(S, 'v1', n, a)
    v2, s2 = value(S, 'v2', n, b)
    sep, third = S.choice('form', [(' ', ''), ('\n', ''), (' \t ', ''), (' ', 'first'), (' ', 'last')])
    src = k1 + '=' + s1 + sep + k2 + '=' + s2
    if third == 'first':
        src = 'long="a=b  c" ' + src
    elif third == 'last':
        src += sep + "long='a=b  c'"
    S.require(S.no(k1 == 'long'))
    d = u.string2dict(src)
    S.observe('d', d)
    S.check(len(d) == (3 if third else 2), 'as many pairs as written')
    S.check(d[k1] == v1 and d[k2] == v2, 'each key with its value')
    if third:
        S.check(d['long'] == 'a=b  c', 'and the third')


def ref(S, text):
    """the words of an argument string, None for an unclosed quote or escape (the documented rules of shlex)"""
    words = []
    cur = None
    i = 0
    while i < len(text):
        c = text[i]
        i += 1
        if c in BLANK:
            if cur is not None:
                words.append(cur)
            cur = None
            continue
        if cur is None:
            cur = ''
        if c == "'":
            j = text.find("'", i)
            if j < 0:
                return None
            cur += text[i:j]
            i = j + 1
        elif c == '"':
            while True:
                if i >= len(text):
                    return None
                c = text[i]
                i += 1
                if c == '"':
                    break
                if c == '\\':
                    if i >= len(text):
                        return None
                    c = text[i]
                    i += 1
                    if c != '"' and c != '\\':
                        cur += '\\'
                cur += c
        elif c == '\\':
            if i >= len(text):
                return None
            cur += text[i]
            i += 1
        else:
            cur += c
    if cur is not None:
        words.append(cur)
    return words


def compare(S, src):
    u = S.load('creole.shared.utils')
    words = ref(S, src)
    if words is not None:
        for w in words:
            if '=' not in w:
                words = None
                break
    try:
        d = u.string2dict(src)
    except ValueError:
        S.check(words is None, 'ValueError only for what is no sequence of pairs')
        return
    S.observe('d', d)
    S.check(words is not None, 'what is no sequence of pairs is a ValueError')
    exp = {}
    for w in words:
        i = w.find('=')
        v = w[i + 1:]
        exp[w[:i]] = v
    S.check(len(d) == len(exp), 'as many keys as written')
    for k in exp:
        v = exp[k]
        S.check(k in d, 'every key')
        got = d[k]
        if isinstance(got, str):
            S.check(got == v, 'a text as it is written')
        elif type(got) is int:
            S.check(S.matches(NUM, v), 'a number only for a number')
        else:
            S.check(v in KEYWORDS and got is KEYWORDS[v], 'True, False and None only for these words')


def free(S, n):
    compare(S, S.text('t', n, n, lib.ANY))


def pieces(S, n):
    src = ''
    for i in range(n):
        src += S.choice('p%d' % i, ['a', '=', ' ', '"', "'", '\\', '=1', '="b c"', "='d'", ' k=', 'True', ''])
    compare(S, src)


def nopair(S, n):
    """a word without = among good pairs"""
    w = S.text('w', 1, n, KEY)
    f = S.choice('f', ['%', 'k=v %', '% k=v', 'k="a b" % l=1', '"%"', 'k=v "%"', "'%' k=v", 'k="v', "k=%'", '"%=v', 'k="%" l="'])
    try:
        S.load('creole.shared.utils').string2dict(w.join(f.split('%')))
    except ValueError:
        S.check(True, 'rejected')
        return
    S.fail('what is no sequence of pairs is a ValueError')


def entry(S, i, n):
    kind = S.choice('kind%d' % i, ['text', 'int', 'word'])
    if kind == 'text':
        v = S.text('v%d' % i, 0, n, lib.ANY)
        S.require(S.no(S.matches(r'[\s\S]*\d[\s\S]*', v)))
        S.require(S.no(S.matches('True|False|None', v)))
        return v
    if kind == 'int':
        return S.int('n%d' % i, -12, 105)
    return S.choice('w%d' % i, [True, False, None])


def equal(S, d, e):
    S.check(len(d) == len(e), 'the same keys')
    for k in e:
        S.check(k in d and type(d[k]) is type(e[k]) and d[k] == e[k], 'the same value of the same type')


def round(S, n):
    u = S.load('creole.shared.utils')
    k = S.text('k', 1, 2, KEY)
    d = {k: entry(S, 0, n)}
    s = u.dict2string(d)
    S.observe('s', s)
    equal(S, u.string2dict(s), d)


def rounds(S, n):
    u = S.load('creole.shared.utils')
    k = S.text('k', 1, 1, KEY)
    S.require(S.no(S.matches('[bz]', k)))
    d = {k: entry(S, 0, n)}
    if S.bool('two'):
        d['b'] = S.text('v1', 0, n, lib.ANY)
        S.require(S.no(S.matches(r'[\s\S]*\d[\s\S]*', d['b'])))
        S.require(S.no(S.matches('True|False|None', d['b'])))
    else:
        d['b'] = S.choice('b', [5, 'x', None])
        d['z'] = S.choice('z', ['a b', 7, '"', ''])
    s = u.dict2string(d)
    S.observe('s', s)
    equal(S, u.string2dict(s), d)
