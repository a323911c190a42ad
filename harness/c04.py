"""C04: inline Creole markup maps to its element with exactly its extent."""
from harness import lib

BOUNDS = {
    'pair': 'each of the 8 marker pairs around every text of up to 4 (quick) / 8 (thorough) characters that are not '
            'markup, blanks and single markup characters included, in 10 contexts',
    'empty': 'pairs of markers with nothing between, in text of up to 2 characters on each side, 10 contexts',
    'nest': 'all nestings of 3 different kinds, nestings of all 8 kinds in 16 orders',
    'seq': 'first match, several pairs, unpaired and overlapping markers of all kinds around symbolic texts',
    'colon': '"//" after ":" neither opens nor closes',
}
KINDS = list(lib.INLINE.items())

# no markup characters except the quotes and such; blanks inside a line allowed
TEXT = r'[^\n\r*/#^,_~=|\\\[\]{}<>:-]'
CONTEXTS = [
    ('', '', '<p>', '</p>'), ('a ', ' b', '<p>a ', ' b</p>'), ('* x', 'y', '<ul>\n\t<li>x', 'y</li>\n</ul>'),
    ('# a\n## x', 'y', '<ol>\n\t<li>a\n\t<ol>\n\t\t<li>x', 'y</li>\n\t</ol></li>\n</ol>'),
    ('|x', 'y|', '<table>\n<tr>\n\t<td>x', 'y</td>\n</tr>\n</table>'), ('|=x', 'y|', '<table>\n<tr>\n\t<th>x', 'y</th>\n</tr>\n</table>'),
    ('x\n', 'y\nz', '<p>x<br />\n', 'y<br />\nz</p>'), ('[[a]]', '{{{b}}}', '<p><a href="a">a</a>', '<code>b</code></p>'),
    ('x{{a}}', '[[b|c]]', '<p>x<img src="a" title="a" alt="a" />', '<a href="b">c</a></p>'),
    ('x\\\\', '\\\\y', '<p>x<br />\n', '<br />\ny</p>'),
]


def cases(tier):
    n = 4 if tier == 'quick' else 8
    out = []
    for i, c in enumerate(CONTEXTS):
        out.append(('pair-%02d' % i, 'pair', n) + c)
        out.append(('seq-%02d' % i, 'seq', 2) + c)
    for i in range(3 if tier == 'quick' else len(CONTEXTS)):
        out.append(('single-%02d' % i, 'single', 3 if tier == 'quick' else 4) + CONTEXTS[i])
    out.append(('nest', 'nest', 3))
    out.append(('deep', 'deep'))
    out.append(('open', 'unpaired'))
    for i in range(len(CONTEXTS)):
        out.append(('empty-%02d' % i, 'empty', 2) + CONTEXTS[i])
    out.append(('cross', 'overlap'))
    out.append(('colon', 'colon'))
    out.append(('nolink', 'nolink'))
    return out


def start(m, pre):
    # bullets at the start of a line are lists, and so on: only used where the marker is inside a line
    return pre == '' and m in ('**', '##')


def conv(S, src):
    html = S.load('creole').creole2html(src)
    S.observe('html', html)
    return html


def pair(S, n, pre, post, hpre, hpost):
    m, tag = S.choice('m', KINDS)
    x = S.text('x', 1, n, TEXT)
    if pre.endswith('\n') or pre == '':
        S.require(lib.solid(S, x[0]))
    html = conv(S, pre + m + x + m + post)
    S.check(lib.same(html, hpre + '<%s>' % tag + lib.esc(x) + '</%s>' % tag + hpost), 'the marked text is in its element')


def single(S, n, pre, post, hpre, hpost):
    """single markup characters inside stay as they are"""
    m, tag = S.choice('m', KINDS)
    x = S.text('x', 1, 1, lib.PLAIN) + S.text('y', 0, n, lib.LINE) + S.text('z', 1, 1, lib.PLAIN)
    for k in list(lib.INLINE) + ['\\\\', '[[', '{{', '<<', '~', '|', '://']:
        S.require(k not in x)
    html = conv(S, pre + m + x + m + post)
    S.check(lib.same(html, hpre + '<%s>' % tag + lib.esc(x) + '</%s>' % tag + hpost), 'the marked text is in its element')


def empty(S, n, pre, post, hpre, hpost):
    """a pair with nothing between it is text"""
    m = S.choice('m', ['**', '//', '##', '^^', ',,', '__', '--'])
    a, b = S.text('a', 1, n, lib.PLAIN), S.text('b', 0, n, lib.PLAIN)
    S.require(S.no(a[len(a) - 1] == ':'))
    src = m + m
    html = conv(S, pre + a + src + b + post)
    S.check(lib.same(html, hpre + lib.esc(a + src + b) + hpost), 'an empty pair is text')


def seq(S, n, pre, post, hpre, hpost):
    """m a m b m c [m d] : the first two markers make a pair, then the next two"""
    m, tag = S.choice('m', KINDS)
    a, b, c = [S.text(k, 1, n, lib.PLAIN) for k in 'abc']
    four = S.bool('four')
    src = pre + m + a + m + b + m + c + (m if four else '') + post
    html = conv(S, src)
    t = '<%s>' % tag + lib.esc(a) + '</%s>' % tag + lib.esc(b)
    t += ('<%s>' % tag + lib.esc(c) + '</%s>' % tag) if four else (('~' if m == '~~' else m) + lib.esc(c))
    S.check(lib.same(html, hpre + t + hpost), 'a pair closes at the first matching marker')


def nest(S, depth):
    left = list(KINDS)
    ks = []
    for i in range(depth):
        k = S.choice('k%d' % i, left)
        left = [x for x in left if x != k]
        ks.append(k)
    check_nest(S, ks)


def deep(S):
    r = S.int('r', 0, 7)
    ks = KINDS[r:] + KINDS[:r]
    if S.bool('rev'):
        ks = ks[::-1]
    check_nest(S, ks)


def check_nest(S, ks):
    src, exp = '', ''
    x, y, z = [S.text(n, 1, 3, lib.PLAIN) for n in 'xyz']
    for i, (m, t) in enumerate(ks):
        src += m + x
        exp += '<%s>' % t + lib.esc(x)
    src += y
    exp += lib.esc(y)
    for m, t in ks[::-1]:
        src += z + m
        exp += lib.esc(z) + '</%s>' % t
    html = conv(S, 'a ' + src + ' b')
    S.check(lib.same(html, '<p>a ' + exp + ' b</p>'), 'different kinds nest')


def unpaired(S):
    m, tag = S.choice('m', KINDS)
    x, y = S.text('x', 0, 3, TEXT), S.text('y', 1, 3, TEXT)
    k, pre, post, hpre, hpost = S.choice('c', [(0, 'a', 'b', '<p>a', 'b</p>')] + [(i,) + c for i, c in enumerate(CONTEXTS) if i in (1, 2, 4, 5)])
    if m == '~~':
        S.require(lib.solid(S, y[0]))
        # the first tilde escapes the second one
        S.check(conv(S, pre + 'k' + x + m + y + post) == hpre + 'k' + lib.esc(x) + '~' + lib.esc(y) + hpost,
                'an unpaired marker is text')
        return
    S.check(conv(S, pre + 'k' + x + m + y + post) == hpre + 'k' + lib.esc(x) + m + lib.esc(y) + hpost,
            'an unpaired marker is text')


def overlap(S):
    """m a n b m c n: n inside m is unpaired, n after it too"""
    m, tag = S.choice('m', KINDS)
    n, _ = S.choice('n', [k for k in KINDS if k[0] not in (m, '~~')])
    a, b, c = [S.text(k, 1, 2, lib.PLAIN) for k in 'abc']
    html = conv(S, 'k ' + m + a + n + b + m + c + n)
    S.check(lib.same(html, '<p>k <%s>' % tag + lib.esc(a) + n + lib.esc(b) + '</%s>' % tag + lib.esc(c) + n + '</p>'),
            'overlapping markers do not pair')


def colon(S):
    x, y, z = [S.text(k, 1, 3, lib.PLAIN) for k in 'xyz']
    w = S.choice('w', ('open', 'close', 'word'))
    if w == 'open':
        html = conv(S, 'a' + x + '://' + y + '//' + z)
        exp = 'a' + lib.esc(x) + '://' + lib.esc(y) + '//' + lib.esc(z)
    elif w == 'close':
        for p in lib.SCHEMES:
            S.require(x != p)
        html = conv(S, 'a//' + x + '://' + y + '//' + z)
        exp = 'a<i>' + lib.esc(x) + '://' + lib.esc(y) + '</i>' + lib.esc(z)
    else:
        html = conv(S, 'a://' + x + ' //' + y + '// ' + z)
        exp = 'a://' + lib.esc(x) + ' <i>' + lib.esc(y) + '</i> ' + lib.esc(z)
    S.check(lib.same(html, '<p>' + exp + '</p>'), '"//" after ":" is no emphasis marker')


def nolink(S):
    """link texts only know images and line breaks: markers are text there"""
    m, tag = S.choice('m', KINDS)
    x, y = S.text('x', 1, 3, lib.PLAIN), S.text('y', 1, 3, lib.PLAIN)
    html = conv(S, '[[' + x + '|' + m + y + m + ']]')
    S.check(lib.same(html, '<p><a href="' + lib.attr(x) + '">' + m + lib.esc(y) + m + '</a></p>'), 'no markup in link texts')
