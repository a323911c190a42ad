"""C07: block structure: headings, rules, paragraphs and line breaks."""
from harness import lib

BOUNDS = {
    'head': 'headings of level 1 to 9 with every text of up to 4 (quick) / 6 (thorough) characters, alone and between other lines',
    'rule': 'lines of 1 to 8 dashes with up to 2 blanks around and with other characters next to them',
    'lines': 'paragraphs of up to 4 / 6 lines of symbolic text, both line break modes, with blank lines of white space',
    'pair': 'all ordered pairs of 16 block kinds with symbolic texts, separated by 1 to 3 blank lines or directly following each other',
    'free': 'every pair of texts of up to 2+2 / 3+2 characters (without "{" and "<") separated by a blank line',
}
WS = ''.join(map(chr, [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160, 5760] + list(range(8192, 8203)) + [8232, 8233, 8239, 8287, 12288]))


def cases(tier):
    q = tier == 'quick'
    out = []
    for i in range(4):
        out.append(('head-%d' % i, 'head', 4 if q else 6, i))
    out.append(('rule', 'rule'))
    out.append(('norule', 'norule'))
    for blog in (True, False):
        out.append(('lines-%d' % blog, 'lines', 4 if q else 6, blog))
        out.append(('marked-%d' % blog, 'marked', blog))
        out.append(('break-%d' % blog, 'forced', blog))
        for i in range(len(BLOCKS)):
            out.append(('pair-%d-%02d' % (blog, i), 'pair', i, blog))
        out.append(('free-%d' % blog, 'free', 2 if q else 3, 2, blog))
    out.append(('three', 'three'))
    return out


def conv(S, src, blog=True):
    html = S.load('creole').creole2html(src, blog_line_breaks=blog)
    S.observe('html', html)
    return html


def head(S, n, i):
    level = S.int('level', 1, 9)
    sep = S.choice('sep', ('', ' ', '\t', '  '))
    x = S.text('x', 0, n, lib.LINE)
    pre, post, hpre, hpost = (('', '', '', ''), ('k\n', '\nz', '<p>k</p>', '<p>z</p>'), ('= k\n', '\n== z', '<h1>k</h1>', '<h2>z</h2>'),
                              ('* k\n\n', '\n\n----', '<ul><li>k</li></ul>', '<hr />'))[i]
    if not sep and len(x):
        S.require(S.no(x[0] == '='))
    html = conv(S, pre + '=' * level + sep + x + post, i % 2 == 0)
    t = x.rstrip(WS + '=').strip()
    S.check(lib.same(html, hpre + '<h%d>' % level + lib.esc(t) + '</h%d>' % level + hpost),
            'a heading of its level with its text')


def rule(S):
    a, b = S.text('a', 0, 2, '[ \t]'), S.text('b', 0, 2, '[ \t]')
    pre, post, hpre, hpost = S.choice('c', (('', '', '', ''), ('k\n', '\nz', '<p>k</p>', '<p>z</p>'), ('* k\n', '\n* z', '<ul><li>k</li></ul>', '<ul><li>z</li></ul>'),
                                            ('k\n\n', '\n\n----', '<p>k</p>', '<hr />'), ('|k\n', '\n|z', '<table><tr><td>k</td></tr></table>', '<table><tr><td>z</td></tr></table>'),
                                            ('= k\n', '\n= z', '<h1>k</h1>', '<h1>z</h1>')))
    blog = S.bool('blog')
    html = conv(S, pre + a + '----' + b + post, blog)
    S.check(lib.same(html, hpre + '<hr />' + hpost), 'four dashes are a rule')


def norule(S):
    k = S.choice('k', ('count', 'after', 'before'))
    blog = S.bool('blog')
    if k == 'count':
        n = S.choice('n', (1, 2, 3, 5, 6, 7, 8))
        html = conv(S, 'k\n\n' + '-' * n + '\n\nz', blog)
    else:
        x = S.text('x', 1, 2, lib.PLAIN)
        html = conv(S, 'k\n\n' + ('----' + x if k == 'after' else x + '----') + '\n\nz', blog)
        S.check(lib.same(html, '<p>k</p><p>' + ('----' + lib.esc(x) if k == 'after' else lib.esc(x) + '----') + '</p><p>z</p>'),
                'dashes in a text are text')
    S.check('<hr' not in html, 'only four dashes alone are a rule')


def lines(S, n, blog):
    k = S.int('k', 1, n)
    xs = [S.text('x%d' % i, 1, 1, lib.PLAIN) + S.text('y%d' % i, 0, 1 if i < 2 else 0, r'[^\n\r*/#^,_~=|\\\[\]{}<>:-]') for i in range(k)]
    before = S.choice('before', ('', '\n', ' \n', '\t\n\n'))
    after = S.choice('after', ('', '\n', '\n \n', '\n\n'))
    html = conv(S, before + '\n'.join(xs) + after, blog)
    S.check(lib.same(html, '<p>' + ('<br />' if blog else ' ').join([lib.esc(x) for x in xs]) + '</p>'),
            'lines form one paragraph')


INL = [('**a**', '<strong>a</strong>'), ('[[a|b]]', '<a href="a">b</a>'), ('{{a|b}}', '<img src="a" title="b" alt="b" />'), ('{{{a}}}', '<code>a</code>'),
       ('//__a__//', '<i><u>a</u></i>'), ('http://a', '<a href="http://a">http://a</a>'), ('~*', '*'), ('a', 'a'), ('-', '-'), ('\\', '\\')]


def marked(S, blog):
    """lines that start or end with inline markup"""
    (a, ha), (b, hb), (c, hc) = S.choice('a', INL), S.choice('b', INL), S.choice('c', INL[:4])
    x = S.text('x', 1, 1, lib.PLAIN)
    br = '<br />' if blog else ' '
    # a backslash may not meet another one
    if a == '\\' or (a[0] == '-'):
        a, ha = x + a, lib.esc(x) + ha
    html = conv(S, a + '\n' + b + ' ' + x + '\n' + x + ' ' + c, blog)
    S.check(lib.same(html, '<p>' + ha + br + hb + ' ' + lib.esc(x) + br + lib.esc(x) + ' ' + hc + '</p>'), 'lines form one paragraph')


def forced(S, blog):
    """two backslashes break the line in both modes"""
    x, y, z = [S.text(k, 1, 2, lib.PLAIN) for k in 'xyz']
    k = S.choice('k', ('mid', 'end', 'start', 'mid+line', 'item', 'cell'))
    src = {'mid': x + '\\\\' + y, 'end': x + '\\\\\n' + y, 'start': x + '\\\\' + y + '\\\\' + z, 'mid+line': x + '\\\\' + y + '\n' + z,
           'item': '* ' + x + '\\\\' + y, 'cell': '|' + x + '\\\\' + y + '|'}[k]
    X, Y, Z = lib.esc(x), lib.esc(y), lib.esc(z)
    exp = {'mid': '<p>' + X + '<br />' + Y + '</p>', 'end': '<p>' + X + '<br />' + Y + '</p>', 'start': '<p>' + X + '<br />' + Y + '<br />' + Z + '</p>',
           'mid+line': '<p>' + X + '<br />' + Y + ('<br />' if blog else ' ') + Z + '</p>',
           'item': '<ul><li>' + X + '<br />' + Y + '</li></ul>', 'cell': '<table><tr><td>' + X + '<br />' + Y + '</td></tr></table>'}[k]
    S.check(lib.same(conv(S, src, blog), exp), 'a forced line break')


# name, source, HTML ($ is the symbolic text, ~~ the line break of the mode)
BLOCKS = [
    ('para', '$', '<p>$</p>'), ('para2', 'a $\n$ b', '<p>a $@$ b</p>'), ('head', '= $', '<h1>$</h1>'), ('head3', '=== $ ===', '<h3>$</h3>'),
    ('rule', '----', '<hr />'), ('ul', '* $', '<ul><li>$</li></ul>'), ('ol', '# $\n# $', '<ol><li>$</li><li>$</li></ol>'),
    ('nested', '* a\n** $\n* b', '<ul><li>a<ul><li>$</li></ul></li><li>b</li></ul>'), ('table', '|=a|b|\n|$|c|', '<table><tr><th>a</th><td>b</td></tr><tr><td>$</td><td>c</td></tr></table>'),
    ('row', '|$', '<table><tr><td>$</td></tr></table>'), ('pre', '{{{\n= $\n\n* a\n}}}', '<pre>= $* a</pre>'), ('strong', '**$**', '<p><strong>$</strong></p>'),
    ('link', '[[$|$]]', '<p><a href="%">$</a></p>'), ('image', '{{$}}', '<p><img src="%" title="%" alt="%" /></p>'),
    ('nowiki', '{{{$}}}', '<p><code>$</code></p>'), ('mixed', '$ **a\n//b** $//', '<p>$ **a@<i>b** $</i></p>'),
]


def fill(t, x, blog):
    out = ''
    for c in t:
        out += lib.esc(x) if c == '$' else lib.attr(x) if c == '%' else ('<br />' if blog else ' ') if c == '@' else c
    return out


def source(t, x):
    return x.join(t.split('$')) if '$' in t else t


FLOW = ('para', 'para2', 'strong', 'link', 'image', 'nowiki', 'mixed')
LISTS = ('ul', 'ol', 'nested')
TABLES = ('table', 'row')


def pair(S, i, blog):
    (n1, s1, h1), (n2, s2, h2) = BLOCKS[i], S.choice('b', BLOCKS)
    x, y = S.text('x', 1, 1, lib.PLAIN), S.text('y', 1, 1, lib.PLAIN)
    gap = S.choice('gap', ('\n', '\n\n', '\n \n', '\n\n\n', '\n\n\t\n\n'))
    if gap == '\n' and ((n1 in FLOW and n2 in FLOW) or (n1 in LISTS and (n2 in FLOW or n2 in LISTS)) or (n1 in TABLES and n2 in TABLES)):
        S.cover('one block')
        return
    html = conv(S, source(s1, x) + gap + source(s2, y), blog)
    S.check(lib.same(html, fill(h1, x, blog) + fill(h2, y, blog)), 'blocks follow each other')


def three(S):
    blocks = [b for b in BLOCKS if b[0] in ('para', 'head', 'rule', 'ul', 'row', 'pre')]
    src, exp, last = '', '', ''
    blog = S.bool('blog')
    for i in range(3):
        n, s, h = S.choice('b%d' % i, blocks)
        x = S.text('x%d' % i, 1, 1, lib.PLAIN)
        if i:
            glued = (last == 'para' and n == 'para') or (last == 'ul' and n in ('ul', 'para')) or (last == 'row' and n == 'row')
            src += '\n\n' if glued or S.bool('g%d' % i) else '\n'
        src += source(s, x)
        exp += fill(h, x, blog)
        last = n
    S.check(lib.same(conv(S, src, blog), exp), 'blocks follow each other')


def free(S, n, m, blog):
    x, y = S.text('x', 0, n, r'[^{<]'), S.text('y', 0, m, r'[^{<]')
    # a line break (two backslashes) at the very end is dropped if another block follows
    for t in (x, y):
        S.require(S.no(S.matches(r'[\s\S]*\\\\\s*', t)))
    c = S.load('creole')
    both = c.creole2html(x + '\n\n' + y, blog_line_breaks=blog)
    S.observe('both', both)
    a = c.creole2html(x, blog_line_breaks=blog)
    b = c.creole2html(y, blog_line_breaks=blog)
    S.check(lib.same(both, a + b), 'blocks are converted on their own')
