"""C11: macros get exactly their arguments, failures stay contained."""
from harness import lib

BOUNDS = {
    'value': 'every argument value of up to 4 (quick) / 6 (thorough) characters without quotes and backslashes, tag and content form, 8 positions',
    'key': 'every ASCII keyword name of up to 3 / 4 characters, one to three arguments',
    'content': 'every content of up to 4 / 6 characters (without "<"), inline and block form, line ends included',
    'name': 'every macro name of up to 3 / 4 letters, digits and underscores, registered or not, in a dict or an object',
    'several': 'three macros of any kind in one text',
    'failures': 'missing, raising (7 exceptions), argument refusing and wrong typed macros and wrong arguments in 8 positions, verbose 0 to 3 and not given, with every text of up to 2 / 3 characters',
}
NAME = '[a-zA-Z0-9_]'


def cases(tier):
    q = tier == 'quick'
    out = []
    for i in range(len(POS)):
        for t in range(2):
            out.append(('value-%d%d' % (i, t), 'value', 4 if q else 6, i, t))
        out.append(('content-%d' % i, 'content', 4 if q else 6, i))
        for v in (0, 1, 2, 3, -1):
            out.append(('fail-%d%d' % (i, v), 'fail', 2 if q else 3, i, v))
    out.append(('block', 'block', 5))
    out.append(('keys', 'keys', 3 if q else 4))
    out.append(('textarg', 'textarg', 2 if q else 4))
    out.append(('many', 'many'))
    for k in range(2):
        out.append(('name-%d' % k, 'name', 3 if q else 4, k))
    out.append(('several-0', 'several', 0))
    out.append(('several-1', 'several', 1))
    out.append(('result', 'result', 2 if q else 3))
    out.append(('once', 'once'))
    return out


# position in a text: source and HTML around
POS = [('', '', '<p>', '</p>'), ('a ', ' b', '<p>a ', ' b</p>'), ('* a\n* ', ' b\n* c', '<ul><li>a</li><li>', ' b</li><li>c</li></ul>'), ('|a|', '|b|', '<table><tr><td>a</td><td>', '</td><td>b</td></tr></table>'),
       ('**a ', '** b', '<p><strong>a ', '</strong> b</p>'), ('= a\n', '\n= b', '', ''), ('a\\\\', '\\\\b', '<p>a<br />', '<br />b</p>'), ('//', '//', '<p><i>', '</i></p>')]


class Err:
    def __init__(self):
        self.n = 0

    def write(self, text):
        self.n += 1


def recorder(calls, result='M'):
    def m(text=None, **kwargs):
        calls.append((text, kwargs))
        return result
    return m


def around(i, content, middle):
    """what stands around a macro; alone on its line a macro with content is a block"""
    pre, post, a, b = POS[i]
    if i == 5:
        a, b = ('<h1>a</h1>' + ('' if content else '<p>'), ('' if content else '</p>') + '<h1>b</h1>')
    elif i == 0 and content:
        a, b = '', ''
    return a + middle + b


def value(S, n, i, form):
    calls = []
    v = S.text('v', 0, n, r'[^"\'\\\s\x60]|[ ]'.replace('|[ ]', '')) if i else S.text('v', 0, n, r'[^"\\\r\n]')
    # a value is not looked at further; what ends the tag or has another type is C12's
    S.require('>' not in v)
    S.require(S.no(S.matches(r'[\s\d_+\x27-]*\d[\s\d_+\x27-]*|True|False|None', v)))
    if i:
        for t in ('**', '//', '\\\\', '[[', '{{', '|', '~', '='):
            S.require(t not in v)
    src = '<<m k="' + v + '">>' + ('t<</m>>' if form else '')
    html = S.load('creole').creole2html(POS[i][0] + src + POS[i][1], macros={'m': recorder(calls)})
    S.observe('html', html)
    S.check(len(calls) == 1, 'the macro is called once')
    text, kw = calls[0]
    S.check(text == ('t' if form else None), 'it gets the enclosed text')
    S.check(list(kw) == ['k'] and kw['k'] == v, 'it gets exactly its arguments')
    S.check(lib.same(html, around(i, form, 'M')), 'its result stands at its place')


def content(S, n, i):
    calls = []
    t = S.text('t', 0, n, r'[^<\r]' if i in (0, 1) else r'[^<\r\n*/\\|{}\[\]~]')
    if i == 1:
        S.require('\n' not in t)
    html = S.load('creole').creole2html(POS[i][0] + '<<m k=a>>' + t + '<</m>>' + POS[i][1], macros={'m': recorder(calls)})
    S.observe('html', html)
    S.check(len(calls) == 1, 'the macro is called once')
    text, kw = calls[0]
    S.check(text == t.strip(), 'it gets exactly the enclosed text')
    S.check(list(kw) == ['k'] and kw['k'] == 'a', 'it gets exactly its arguments')
    S.check(lib.same(html, around(i, True, 'M')), 'its result stands at its place')


def block(S, n):
    """over several lines, between other blocks"""
    calls = []
    t = S.text('t', 0, n, r'[^<\r]')
    sp = S.choice('sp', ['', ' '])
    pre, hpre = S.choice('pre', [('', ''), ('= a\n', '<h1>a</h1>'), ('a\n\n', '<p>a</p>'), ('* a\n', '<ul><li>a</li></ul>'), ('|a\n', '<table><tr><td>a</td></tr></table>'), ('a\n', '<p>a</p>')])
    html = S.load('creole').creole2html(pre + '<<' + sp + 'm' + sp + '>>\n' + t + '\n<</' + sp + 'm' + sp + '>>\n----', macros={'m': recorder(calls)})
    S.observe('html', html)
    S.check(len(calls) == 1, 'the macro is called once')
    S.check(calls[0][0] == t.strip() and not calls[0][1], 'it gets exactly the enclosed text')
    S.check(lib.same(html, hpre + 'M<hr />'), 'its result stands at its place')


def keys(S, n):
    calls = []
    k = S.text('k', 1, n, r'[a-zA-Z0-9_.:-]')
    l = S.text('l', 1, 1, r'[a-zA-Z_]')
    S.require(S.no(k == l))
    S.require(S.no(k == 'text'))
    f = S.bool('content')
    html = S.load('creole').creole2html('<<m ' + k + '="a b" ' + l + '=c>>' + ('t<</m>>' if f else ''), macros={'m': recorder(calls)})
    S.observe('html', html)
    S.check(len(calls) == 1, 'the macro is called once')
    text, kw = calls[0]
    S.check(text == ('t' if f else None), 'it gets the enclosed text')
    S.check(len(kw) == 2 and kw.get(k) == 'a b' and kw.get(l) == 'c', 'it gets exactly its arguments')


def textarg(S, n):
    """an argument named text does not hide the enclosed text"""
    calls = []
    t, v = S.text('t', 0, n, r'[^<\s\ud800-\udfff]'), S.text('v', 0, n, '[a-z ]')
    src = S.choice('src', ['<<m text="%">>!<</m>>', '<<m k=a text="%">>!<</m>>', '<<m text="%">>\n!\n<</m>>'])
    html = S.load('creole').creole2html(t.join(v.join(src.split('%')).split('!')), macros={'m': recorder(calls)})
    S.observe('html', html)
    S.check(len(calls) == 1, 'the macro is called once')
    S.check(calls[0][0] == t, 'it gets exactly the enclosed text')
    S.check(calls[0][1] == ({'k': 'a'} if 'k=a' in src else {}), 'and its other arguments')


def many(S):
    calls = []
    vals = [S.text('v%d' % i, 0, 2, r'[^"\'\\>\d_\r\n]') for i in range(3)]
    n = S.int('n', 0, 3)
    slash = S.choice('end', ['', ' /', ' '])
    html = S.load('creole').creole2html('<<m' + ''.join([' k%d="' % i + vals[i] + '"' for i in range(n)]) + slash + '>>', macros={'m': recorder(calls)})
    S.observe('html', html)
    S.check(len(calls) == 1, 'the macro is called once')
    text, kw = calls[0]
    S.check(text is None, 'a tag has no text')
    S.check(len(kw) == n and all([kw['k%d' % i] == vals[i] for i in range(n)]), 'it gets exactly its arguments')


class Box:
    pass


def name(S, n, obj):
    """the macro of that name is called, or none"""
    calls = {}

    def make(k):
        def m(text=None, **kwargs):
            calls[k] = calls.get(k, 0) + 1
            return '(' + k + ')'
        return m
    names = ['m', 'ma', 'm1', 'mab', 'M', 'a_b', '_m']
    x = S.text('x', 1, n, NAME)
    S.require(S.no(x == 'toc'))
    table = {k: make(k) for k in names}
    if obj:
        box = Box()
        for k in names:
            setattr(box, k, table[k])
        table = box
        S.require(S.no(S.matches('__.*__', x)))
    f = S.choice('f', ['a <<%>> b', 'a <<%>>t<</%>> b', '<<%>>\nt\n<</%>>', '<<% k="1">>'])
    html = S.load('creole').creole2html(x.join(f.split('%')), macros=table, verbose=1)
    S.observe('html', html)
    known = None
    for k in names:
        if x == k:
            known = k
    if known:
        S.check(calls == {known: 1}, 'exactly the macro of that name is called, once')
        S.check('(' + known + ')' in html, 'and its result shown')
        S.check('[Error' not in html, 'no error')
    else:
        S.check(calls == {}, 'no macro is called')
        S.check('[Error: ' in html, 'an error is shown')
        S.check("'" + x + "'" in html, 'it names the macro')


def several(S, i):
    calls = []

    def make(k):
        def m(text=None, **kwargs):
            calls.append((k, text, kwargs))
            return '(' + k + ')'
        return m
    x = S.text('x', 1, 1, lib.WORDC)
    forms = [('<<a>>', 'a', None), ('<<b>>%<</b>>', 'b', '%'), ('<<a k="%x">>', 'a', None), ('<<c>><</c>>', 'c', ''), ('<<b>>**%**<</b>>', 'b', '**%**'), ('<<c>><<a>><</c>>', 'c', '<<a>>')]
    exp = []
    src = 'x'
    out = '<p>x'
    sep = [' ', '\n'][i]
    for j in range(3):
        s, k, t = S.choice('m%d' % j, forms)
        src += sep + x.join(s.split('%'))
        exp.append((k, x.join(t.split('%')) if t is not None else None, '%x' in s))
        if i and '/' in s:
            # a macro with content at the start of a line is a block of its own
            out += ('</p>' if '<p>' in out and out.rindex('<p>') > (out.rindex('</p>') if '</p>' in out else -1) else '') + '(' + k + ')'
        elif i:
            open_ = '<p>' in out and out.rindex('<p>') > (out.rindex('</p>') if '</p>' in out else -1)
            out += ('<br />' if open_ else '<p>') + '(' + k + ')'
        else:
            out += ' (' + k + ')'
    if '<p>' in out and out.rindex('<p>') > (out.rindex('</p>') if '</p>' in out else -1):
        out += '</p>'
    html = S.load('creole').creole2html(src, macros={k: make(k) for k in 'abc'})
    S.observe('html', html)
    S.check(len(calls) == 3, 'three macros, three calls')
    for (k, t, kw), (ek, et, has) in zip(calls, exp):
        S.check(k == ek and t == et, 'in order, each with its text')
        S.check((list(kw) == ['k'] and kw['k'] == x + 'x') if has else not kw, 'each with its arguments')
    S.check(lib.same(html, out), 'the results stand at their places')


EXC = [ValueError, KeyError, TypeError, AttributeError, ZeroDivisionError, UnicodeError, NotImplementedError]


def fail(S, n, i, verbose):
    kind = S.choice('kind', ['missing', 'raise', 'refuse', 'typed', 'args'])
    x = S.text('x', 0, n, lib.WORDC)
    f = S.bool('content')
    names = {'missing': 'nope', 'raise': 'boom', 'refuse': 'strict', 'typed': 'number', 'args': 'm'}
    name = names[kind]
    exc = S.choice('exc', EXC) if kind == 'raise' else None

    def boom(text=None, **kw):
        raise exc(x)

    def strict(text=None):
        return 'M'
    odd = S.choice('odd', [5, None, b'M', ['M']]) if kind == 'typed' else None

    def number(text=None, **kw):
        return odd
    calls = []
    arg = {'args': ' ' + x + 'k', 'refuse': ' z' + x + '=1', 'typed': '', 'raise': ' k="' + x + 'k"', 'missing': ''}[kind]
    err = Err()
    src = POS[i][0] + '<<' + name + arg + '>>' + (x + 't<</' + name + '>>' if f else '') + POS[i][1]
    table = {'boom': boom, 'strict': strict, 'number': number, 'm': recorder(calls)}
    c = S.load('creole')
    # errors are shown, if nothing else is said
    given = {'verbose': verbose, 'stderr': err} if verbose >= 0 else S.choice('given', [{}, {'verbose': None}])
    verbose = 1 if verbose < 0 else verbose
    reraise = verbose > 2 and (kind == 'refuse' or exc is TypeError)
    try:
        html = c.creole2html(src, macros=table, **given)
    except TypeError:
        S.check(reraise, 'only verbose above 2 raises a TypeError')
        return
    S.observe('html', html)
    S.check(not reraise, 'verbose above 2 raises a TypeError')
    S.check(not calls, 'no macro is called with wrong arguments')
    S.check(verbose > 1 or err.n == 0, 'details only above verbose 1')
    S.check(verbose < 2 or kind == 'typed' or err.n > 0, 'details above verbose 1')
    html = lib.flat(html)
    if verbose == 0:
        S.check(html == lib.flat(around(i, f, '')), 'nothing is shown')
        return
    a, b = lib.flat(around(i, f, '@')).split('@')
    S.check(html[:len(a)] == a and html[len(html) - len(b):] == b, 'the rest of the document is as without the failure')
    mid = html[len(a):len(html) - len(b)]
    S.check(mid[:8] == '[Error: ' and mid[len(mid) - 1] == ']' and mid.count('[Error') == 1, 'one error text in its place')
    S.check("'" + name + "'" in mid, 'it names the macro')


def result(S, n):
    """the result goes into the output as it is"""
    r = S.text('r', 0, n, lib.ANY)
    f = S.choice('f', ['a <<m>> b', 'a <<m>>t<</m>> b', '* <<m>>', '|<<m>>|'])

    def m(text=None):
        return '{' + r + '}'
    html = S.load('creole').creole2html(f, macros={'m': m})
    S.observe('html', html)
    exp = {'a': '<p>a {@} b</p>', '*': '<ul>\n\t<li>{@}</li>\n</ul>', '|': '<table>\n<tr>\n\t<td>{@}</td>\n</tr>\n</table>'}[f[0]]
    S.check(html == r.join(exp.split('@')), 'the result is placed unchanged')


def once(S):
    """a text without macros calls none"""
    calls = []
    x = S.text('x', 1, 2, lib.PLAIN)
    t = S.choice('t', ['{{{<<m>>}}}', '{{{\n<<m>>%<</m>>\n}}}', '~<<m>>', '= <<m>>', '%<m>%', '[[<<m>>]]', '{{<<m>>}}', '<<%', '< <m>>'])
    if t == '<<%':
        S.require(S.no(x[0] == 'm'))
    html = S.load('creole').creole2html(x.join(t.split('%')), macros={'m': recorder(calls)})
    S.observe('html', html)
    S.check(calls == [], 'escaped or quoted macros are not called')
