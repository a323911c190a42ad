"""C10: conversions depend on their arguments only and not on the style of line ends."""
from harness import lib

BOUNDS = {
    'ends': 'every text of up to 4 (quick) / 5 (thorough) characters that are line ends of any style or other ASCII characters, alone and inside constructs',
    'mix': '15 block structures of 3 lines with symbolic texts, each line end independently of any style, both line break modes',
    'pairs': 'every ordered pair out of 26 conversions in both directions with symbolic texts: the second one gives what it gives in '
             'a new process, and so does the first one repeated after it',
    'args': 'the macro table, a macro object and block rules are as before and usable again',
}
ENDS = ['\n', '\r\n', '\r']


def cases(tier):
    q = tier == 'quick'
    out = []
    for i in range(len(CTX)):
        out.append(('ends-%02d' % i, 'ends', (4 if q else 5) if i == 0 else (2 if q else 3), i))
    for i in range(len(LINES)):
        out.append(('mix-%02d' % i, 'mix', i))
    for i in range(len(JOBS)):
        out.append(('pairs-%02d' % i, 'pairs', i))
    out.append(('args', 'args'))
    out.append(('arg-object', 'arg_object'))
    out.append(('rules', 'rules'))
    out.append(('toc', 'toc'))
    return out


CTX = [('', ''), ('a', 'b'), ('* a', '* b'), ('{{{', '}}}'), ('{{{\n', '\n}}}'), ('|a|', '|b'), ('= a', '= b'), ('<<m>>', '<</m>>'), ('a <<m>>', '<</m>> b'), ('**', '**'), ('a\\\\', 'b'), ('[[a|', ']]'),
       ('----', '----'), ('<<toc>>', '= a'), ('<<m a="', '">>')]


def macro(text=None, **kwargs):
    return '(%s)' % text


def unify(s):
    return s.replace('\r\n', '\n').replace('\r', '\n')


def ends(S, n, i):
    c = S.load('creole')
    pre, post = CTX[i]
    x = S.text('x', 0, n, r'[\x00-\x7f\u2028]')
    src = pre + x + post
    blog = S.bool('blog')
    a = c.creole2html(src, blog_line_breaks=blog, macros={'m': macro}, verbose=0)
    S.observe('html', a)
    b = c.creole2html(unify(src), blog_line_breaks=blog, macros={'m': macro}, verbose=0)
    S.check(a == b, 'the style of the line ends does not matter')


LINES = [('$', '$', '$'), ('= $', '$', '----'), ('* $', '** $', '# $'), ('* $', '$', '* $'), ('|$|a', '|=$', '$'), ('{{{', '$', '}}}'), ('{{{', '= $\n\n ~}}}', '}}}'), ('{{{', '#!py', '}}}\n$'), ('<<m>>', '$\n$', '<</m>>'),
         ('a <<m>>$', '$', '<</m>> $'), ('$', '', '$'), ('**$', '$**', '$'), ('$\\\\', '$', '\\\\'), ('<<toc>>', '= $', '== $'), ('----', '----', '----')]


def mix(S, i):
    c = S.load('creole')
    x = S.text('x', 1, 1, lib.PLAIN)
    blog = S.bool('blog')
    src, ref = '', ''
    for k, l in enumerate(LINES[i]):
        l = x.join(l.split('$'))
        src += l.replace('\n', '\r\n') + S.choice('e%d' % k, ENDS)
        ref += l + '\n'
    end = S.choice('end', ['', '\r', '\r\r\n', '\n\r'])
    a = c.creole2html(src + end, blog_line_breaks=blog, macros={'m': macro})
    S.observe('html', a)
    # "\r" + "\r\n" are two line ends, and a single "\r" before "\n" belongs to it
    S.check(a == c.creole2html(unify(src + end), blog_line_breaks=blog, macros={'m': macro}), 'the style of the line ends does not matter')


TABLE = '<table><tr><th>$</th><td>b</td></tr><tr><td>c</td></tr></table>'
JOBS = [
    ('creole2html', '<<toc>>\n= $\n== b', {}), ('creole2html', '= $\n* a\n** b', {'blog_line_breaks': False}), ('creole2html', '|=$|b|\n\n{{a|$|1x2}} [[b|$]]', {'strict': True}),
    ('creole2html', '<<m k="$">> <<nope>> <<m>>$<</m>>', {'macros': {'m': macro}}), ('creole2html', '<<nope $>>', {'verbose': 0}), ('creole2html', '{{{\n$\n}}}\n**$', {}),
    ('creole2html', '<<toc depth=1>>\n= $\n== b\n<<toc>>', {'macros': {'m': macro}}), ('creole2html', '$', {}),
    ('html2creole', '<p>$ <b>a</b></p><ul><li>$</li></ul>', {}), ('html2creole', TABLE, {}), ('html2creole', '<pre>$\n a</pre><p>{{{ $', {}), ('html2creole', '<foo k="$">a</foo>', {'unknown': 'escape_unknown_nodes'}),
    ('html2creole', '<foo k="$">a</foo>', {}), ('html2creole', '<img src="$" width="1" height="2" />', {'strict': True}), ('html2creole', '<ul><li>$', {}), ('html2creole', '&amp;&#65;$', {}),
    ('html2rest', '<h1>$</h1><p><a href="$">a</a> <img src="$" alt="b" /></p>', {}), ('html2rest', '<a href="b">a</a><pre>$</pre>', {}), ('html2rest', TABLE, {}), ('html2rest', '<ul><li>$<ul><li>b</li></ul></li></ul><p><img src="c" alt="b" /></p>', {}),
    ('html2textile', '<h2>$</h2><ol><li>$</li></ol><a href="$">$</a>', {}), ('html2textile', TABLE, {}), ('html2textile', '<foo>$</foo>', {'unknown': 'use_html_macro'}),
    ('html2markdown', '<h2>$</h2><ol><li>$</li><li>b</li></ol><a href="a$">$</a>', {}), ('html2markdown', TABLE, {}), ('html2markdown', '<pre><code>$</code></pre><code>a', {}),
]


def work(c, load, job, x):
    f, t, kw = job
    kw = dict(kw)
    if 'unknown' in kw:
        kw['unknown_emit'] = getattr(load('creole.shared.unknown_tags'), kw.pop('unknown'))
    return getattr(c, f)(x.join(t.split('$')), **kw)


def pairs(S, i):
    b = S.choice('b', JOBS)
    x, y = S.text('x', 1, 1, lib.WORDC), S.text('y', 1, 1, lib.WORDC)
    c = S.load('creole')
    first = work(c, S.load, JOBS[i], x)
    S.observe('first', first)
    second = work(c, S.load, b, y)
    S.observe('second', second)
    f = S.fresh('creole')
    if 'unknown' in b[2]:
        S.check(second == work(c, S.load, b, y), 'a second conversion gives the same')
    else:
        S.check(second == work(f, None, b, y), 'a conversion does not depend on the ones before it')
    S.check(first == work(c, S.load, JOBS[i], x), 'repeating a conversion gives the same')


TEXTS = ['<<toc>>\n= $\n', '<<m k="$">>', '<<m>>$<</m>>', '<<nope>>', '<<bad>>$<</bad>>', '<<m $>>', 'a', '<<toc depth="x">>\n= $', '<<toc k=1>>\n= $']


def bad(text=None):
    raise ValueError('bad')


def args(S):
    c = S.load('creole')
    t = S.choice('t', TEXTS)
    x = S.text('x', 1, 1, lib.WORDC)
    table = {'m': macro, 'bad': bad}
    if S.bool('none'):
        table = {}
    before = dict(table)
    src = x.join(t.split('$'))
    a = c.creole2html(src, macros=table, verbose=1)
    S.observe('html', a)
    S.check(sorted(table) == sorted(before) and all([table[k] is before[k] for k in before]), 'the macro table is as before')
    S.check(a == c.creole2html(src, macros=table, verbose=1), 'the same macros give the same result again')
    S.check(a == c.creole2html(src, macros=before, verbose=1), 'equal macros give the same result')


def arg_object(S):
    class Macros:
        def __init__(self):
            self.m = macro
            self.bad = bad
    c = S.load('creole')
    x = S.text('x', 1, 1, lib.WORDC)
    table = Macros()
    src = x.join(S.choice('t', TEXTS).split('$'))
    a = c.creole2html(src, macros=table, verbose=1)
    S.observe('html', a)
    S.check(sorted(vars(table)) == ['bad', 'm'] and table.m is macro and table.bad is bad, 'the macro object is as before')
    S.check(a == c.creole2html(src, macros=table, verbose=1), 'the same macros give the same result again')


def rules(S):
    """one BlockRules object for many texts"""
    c = S.load('creole')
    R = S.load('creole.parser.creol2html_rules').BlockRules
    x = S.text('x', 1, 2, lib.PLAIN)
    blog = S.bool('blog')
    r = R(blog_line_breaks=blog)
    before = r.rules
    s, t = S.choice('s', ['$\n$', '* $\n** $', '= $', '{{{\n$\n}}}']), S.choice('t', ['$\n$', '|$|\n$', '<<m>>$<</m>>'])
    a = c.creole2html(x.join(s.split('$')), block_rules=r)
    b = c.creole2html(x.join(t.split('$')), block_rules=r)
    S.observe('html', [a, b])
    S.check(a == c.creole2html(x.join(s.split('$')), blog_line_breaks=blog), 'given rules are used')
    S.check(b == c.creole2html(x.join(t.split('$')), blog_line_breaks=blog), 'rules can be used again')
    S.check(r.rules is before or r.rules == before, 'the rules are as before')


def toc(S):
    """three conversions with a table of contents and one macro table"""
    c = S.load('creole')
    table = {}
    out = []
    for i in range(3):
        x = S.text('x%d' % i, 1, 1, lib.WORDC)
        src = S.choice('d%d' % i, ['<<toc>>\n', '<<toc depth=1>>\n', '']) + '= ' + x + '\n== b'
        a = c.creole2html(src, macros=table)
        S.check(a == c.creole2html(src), 'each text has its own table of contents')
        out.append(a)
    S.observe('html', out)
    S.check(table == {}, 'the macro table is as before')
