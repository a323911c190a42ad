"""C09: tables."""
from harness import lib

BOUNDS = {
    'row': 'rows of 1 to 4 (quick) / 5 (thorough) cells, each td or th, empty or with symbolic text, with blanks around it, with and without closing bar',
    'shape': 'tables of 3 / 4 rows of 1 to 3 cells each, any of them ragged',
    'inner': 'cells with 22 kinds of constructs that contain "|" or markup, every symbolic text in each place',
    'text': 'every cell text of up to 4 / 6 characters of a line (without "|", and "=" at its start for td)',
    'macro': 'macro tags and macros with content in cells, whose arguments and content contain "|"',
    'around': 'tables between all other block kinds, both line break modes',
}


def cases(tier):
    q = tier == 'quick'
    out = []
    for i in range(12):
        out.append(('row-%02d' % i, 'row', 4 if q else 5, i))
    out.append(('blanks', 'blanks'))
    for i in range(3):
        out.append(('shape-%d' % i, 'shape', 3 if q else 4, i))
    for i in range(len(INNER)):
        out.append(('inner-%02d' % i, 'inner', i, 2 if q else 4))
    for i in range(4):
        out.append(('text-%d' % i, 'text', 4 if q else 6, i))
    out.append(('macro', 'macro', 2 if q else 3))
    for blog in (True, False):
        out.append(('around-%d' % blog, 'around', blog))
    out.append(('bar', 'bar'))
    return out


def conv(S, src, blog=True, **kw):
    html = S.load('creole').creole2html(src, blog_line_breaks=blog, **kw)
    S.observe('html', html)
    return html


def table(rows):
    """rows: lists of (tag, html)"""
    return '<table>' + ''.join(['<tr>' + ''.join(['<%s>' % t + h + '</%s>' % t for t, h in r]) + '</tr>' for r in rows]) + '</table>'


KINDS = [('td', 1), ('th', 1), ('td', 0), ('th', 0)]


def cell(S, name, kind):
    tag, n = kind
    x = S.text(name, n, n, lib.PLAIN)
    return ('=' if tag == 'th' else '') + x, (tag, lib.esc(x))


def row(S, n, i):
    """kinds of the first cell and closing are fixed by the case"""
    n = S.int('n', 1, n)
    cells = [cell(S, 'x%d' % k, KINDS[i % 4] if k == 0 else S.choice('k%d' % k, KINDS)) for k in range(n)]
    close = i // 4
    if close == 0 and cells[-1][0] == '':
        close = 1               # an empty last cell needs its closing bar
    html = conv(S, '|' + '|'.join([c for c, e in cells]) + ('', '|', '| ')[close])
    S.check(lib.same(html, table([[e for c, e in cells]])), 'each cell once, in order, of its kind')


def blanks(S):
    b = ['', ' ', '\t', '  ']
    n = S.int('n', 1, 3)
    one = S.int('one', 0, 2)
    pre, post = S.choice('pre', b), S.choice('post', b)
    eq = S.choice('eq', ['', ' '])
    cells = []
    for k in range(n):
        s, e = cell(S, 'x%d' % k, S.choice('k%d' % k, KINDS))
        if k == one:
            s = pre + (s[0] + eq + s[1:] if e[0] == 'th' else s) + post
        cells.append((s, e))
    lead = S.choice('lead', ['', ' ', '\t'])
    html = conv(S, lead + '|' + '|'.join([c for c, e in cells]) + '|')
    S.check(lib.same(html, table([[e for c, e in cells]])), 'blanks around cells do not matter')


def shape(S, n, i):
    rows, src = [], []
    for r in range(n):
        m = i + 1 if r == 0 else S.int('m%d' % r, 1, 3)
        cells = [cell(S, 'x%d%d' % (r, k), S.choice('k%d%d' % (r, k), KINDS[:2] if n > 3 or r else KINDS[:3])) for k in range(m)]
        close = S.bool('c%d' % r) if r < 2 else True
        if not close and cells[-1][0] == '':
            close = True
        src.append('|' + '|'.join([c for c, e in cells]) + ('|' if close else ''))
        rows.append([e for c, e in cells])
    S.check(lib.same(conv(S, '\n'.join(src)), table(rows)), 'each line is a row')


# source and HTML of a cell; $ is a text, % the text as attribute
INNER = [
    ('[[$|y]]', '<a href="%">y</a>'), ('[[y|$]]', '<a href="y">$</a>'), ('[[$]]', '<a href="%">$</a>'), ('[[y|{{$|z}}]]', '<a href="y"><img src="%" title="z" alt="z" /></a>'),
    ('{{$|y}}', '<img src="%" title="y" alt="y" />'), ('{{y|$}}', '<img src="y" title="%" alt="%" />'), ('{{y|$|3x4}}', '<img src="y" title="%" alt="%" width="3" height="4" />'),
    ('{{{$|y}}}', '<code>$|y</code>'), ('{{{y|$|z}}}', '<code>y|$|z</code>'), ('{{{|}}}$', '<code>|</code>$'), ('$ [[y|z]] $', '$ <a href="y">z</a> $'),
    ('**[[$|y]]**', '<strong><a href="%">y</a></strong>'), ('//{{y|$}}//', '<i><img src="y" title="%" alt="%" /></i>'), ('[[a|b]][[$|d]]', '<a href="a">b</a><a href="%">d</a>'),
    ('{{a|b}}{{c|$}}', '<img src="a" title="b" alt="b" /><img src="c" title="%" alt="%" />'), ('{{{a|b}}}{{{$|d}}}', '<code>a|b</code><code>$|d</code>'),
    ('**$**', '<strong>$</strong>'), ('//$//', '<i>$</i>'), ('$\\\\$', '$<br />$'), ('{{{}}|$}}}', '<code>}}|$</code>'), ('http://y/$', '<a href="http://y/%">http://y/$</a>'),
    ('{{{[[$|}}}', '<code>[[$|</code>'),
]


def fill(t, x):
    return ''.join([lib.esc(x) if c == '$' else lib.attr(x) if c == '%' else c for c in t])


def inner(S, i, n):
    s, h = INNER[i]
    x = S.text('x', 1, n, lib.WORDC if 'http' in s else lib.PLAIN)
    y = S.text('y', 1, 1, lib.PLAIN)
    pre, hpre = S.choice('pre', [([], []), ([y], [('td', lib.esc(y))]), (['=' + y, y], [('th', lib.esc(y)), ('td', lib.esc(y))]), (['[[a|b]]'], [('td', '<a href="a">b</a>')])])
    post, hpost = S.choice('post', [([], []), ([y], [('td', lib.esc(y))]), (['=' + y], [('th', lib.esc(y))]), (['{{a|b}}', ''], [('td', '<img src="a" title="b" alt="b" />'), ('td', '')]), (['{{{a|b}}}'], [('td', '<code>a|b</code>')])])
    b, close = S.choice('b', ['', ' ']), S.choice('close', ['|', '|\n|z'])
    head = S.bool('head')
    html = conv(S, '|' + '|'.join(pre + [('=' if head else '') + b + x.join(s.split('$')) + b] + post) + close)
    exp = [hpre + [('th' if head else 'td', fill(h, x))] + hpost]
    if close != '|':
        exp.append([('td', 'z')])
    S.check(lib.same(html, table(exp)), 'constructs in cells keep their bars')


def text(S, n, i):
    pre, post, hpre, hpost = (('|', '|', [], []), ('|a|', '|b', [('td', 'a')], [('td', 'b')]), ('|=a|', '', [('th', 'a')], []), ('|{{a|b}}|', '|=c|', [('td', '<img src="a" title="b" alt="b" />')], [('th', 'c')]))[i]
    x = S.text('x', 1, n, lib.LINE)
    S.require('|' not in x)
    S.require(S.has(x[len(x) - 1], r'\S'))
    p = S.load('creole').creole2html('k' + x)
    exp = table([hpre + [('td', '@')] + hpost])
    a, b = exp.split('@')
    # a break has another layout in cells
    S.check(lib.same(conv(S, pre + 'k' + x + post), p.replace('<p>', a).replace('</p>', b)), 'the cell holds its text, as in a paragraph')


def macro(S, n):
    calls = []

    def m(text=None, **kw):
        calls.append((text, kw))
        return 'M'
    x = S.text('x', 1, n, lib.PLAIN[:-1].replace('|', '') + ']')
    k = S.choice('k', ['<<m a="$">>', '<<m a="y|$">>', '<<m>>$<</m>>', '<<m>>y|$<</m>>', '<<m a="y|z">>$|y<</m>>', 'y<<m a="|">>'])
    S.require(S.no(S.matches('.*["\'\\\\\x60].*', x)))
    S.require(S.no(S.matches(r'[\d_]*', x)))
    html = conv(S, '|a|' + x.join(k.split('$')) + '|b', macros={'m': m})
    S.check(lib.same(html, table([[('td', 'a'), ('td', 'yM' if k[0] == 'y' else 'M'), ('td', 'b')]])), 'a macro in a cell keeps its bars')
    S.check(len(calls) == 1, 'the macro is called once')


def around(S, blog):
    x, y, z = [S.text(k, 1, 1, lib.PLAIN) for k in 'xyz']
    X, Y, Z = lib.esc(x), lib.esc(y), lib.esc(z)
    pre, hpre = S.choice('pre', [(z + '\n', '<p>' + Z + '</p>'), ('= ' + z + '\n', '<h1>' + Z + '</h1>'), ('----\n', '<hr />'), ('* ' + z + '\n', '<ul><li>' + Z + '</li></ul>'), ('# a\n## ' + z + '\n', '<ol><li>a<ol><li>' + Z + '</li></ol></li></ol>'),
                                 ('{{{\n' + z + '\n}}}\n', '<pre>' + Z + '</pre>'), (z + '\n\n', '<p>' + Z + '</p>'), ('\n\n', ''), ('|' + z + '\n\n', table([[('td', Z)]])), ('|' + z + '\n \n', table([[('td', Z)]]))])
    post, hpost = S.choice('post', [('\nk', '<p>k</p>'), ('\n\nk', '<p>k</p>'), ('\n= k', '<h1>k</h1>'), ('\n----', '<hr />'), ('\n* k', '<ul><li>k</li></ul>'),
                                    ('\n{{{\nk\n}}}', '<pre>k</pre>'), ('\n', ''), ('\n \n**k**', '<p><strong>k</strong></p>'), ('\n\n|k', table([[('td', 'k')]]))])
    head = S.bool('head')
    html = conv(S, pre + ('|=' if head else '|') + x + '|' + y + S.choice('close', ['', '|']) + '\n|' + y + '|' + post, blog)
    S.check(lib.same(html, hpre + table([[('th' if head else 'td', X), ('td', Y)], [('td', Y)]]) + hpost), 'a table between other blocks')


def bar(S):
    """bars elsewhere are text"""
    x, y = S.text('x', 1, 2, lib.PLAIN), S.text('y', 0, 2, lib.PLAIN)
    src, exp = S.choice('k', [('$|@', '<p>$|@</p>'), ('$ | @', '<p>$ | @</p>'), ('* |$|@', '<ul><li>|$|@</li></ul>'), ('= |$', '<h1>|$</h1>'), ('~|$|', '<p>|$|</p>'), ('**$|**', '<p><strong>$|</strong></p>')])
    html = conv(S, ''.join([x if c == '$' else y if c == '@' else c for c in src]))
    S.check(lib.same(html, ''.join([lib.esc(x) if c == '$' else lib.esc(y) if c == '@' else c for c in exp])), 'a bar that does not start a line is text')
