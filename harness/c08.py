"""C08: lists nest by bullet count and kind."""
from harness import lib

BOUNDS = {
    'profile': 'every sequence of 5 (quick) / 6 (thorough) item lines with 1 to 4 bullets of either kind, of 5 / 6 lines with 1 to 3, each with a symbolic text',
    'deep': 'every walk of 6 / 8 lines that goes one level down or any number of levels up, to depth 6 / 8, mixed kinds',
    'chain': 'chains of up to 12 / 20 levels, step by step, every second level or directly, then 1 or 13 / 21 items at any level above',
    'mixed': 'bullets of mixed kinds in one line (the last one counts), up to 3 bullets, 3 lines',
    'blanks': 'blanks and tabs before, after and without blanks after the bullets',
    'text': 'every item text of up to 5 / 7 characters of a line',
    'around': 'lists after and before other blocks, continued items, two lists, both line break modes',
}


def cases(tier):
    q = tier == 'quick'
    out = []
    for k in range(2):
        for d in range(8):
            out.append(('profile-%d%d' % (k, d), 'profile', 5 if q else 6, 4, k, d))
        for d in range(6):
            out.append(('profile3-%d%d' % (k, d), 'profile', 5 if q else 6, 3, k, d))
        out.append(('deep-%d' % k, 'deep', 6 if q else 8, k))
        out.append(('mixed-%d' % k, 'mixed', k))
        out.append(('chain-%d' % k, 'chain', 12 if q else 20, k))
    out.append(('blanks', 'blanks'))
    for i in range(4):
        out.append(('text-%d' % i, 'text', 5 if q else 7, i))
    for blog in (True, False):
        out.append(('around-%d' % blog, 'around', blog))
        out.append(('continued-%d' % blog, 'continued', blog))
        out.append(('two-%d' % blog, 'two', blog))
    out.append(('markup', 'markup'))
    out.append(('empty', 'empty'))
    return out


def conv(S, src, blog=True):
    html = S.load('creole').creole2html(src, blog_line_breaks=blog)
    S.observe('html', html)
    return html


TAG = {'*': 'ul', '#': 'ol'}


def nest(items):
    """items: (depth, bullet, html) -> expected HTML, by the description of the property"""
    out = ''
    stack = []          # open lists (depth, kind), each with an open item
    for depth, kind, text in items:
        # going back up closes everything deeper, and a list of the other kind
        while stack and (stack[-1][0] > depth or (stack[-1][0] == depth and stack[-1][1] != kind)):
            out += '</li></%s>' % TAG[stack.pop()[1]]
        if stack and stack[-1][0] == depth:
            out += '</li><li>' + text
        else:
            out += '<%s><li>' % TAG[kind] + text
            stack.append((depth, kind))
    while stack:
        out += '</li></%s>' % TAG[stack.pop()[1]]
    return out


def words(S, n):
    return [S.text('x%d' % i, 1, 1, lib.PLAIN) for i in range(n)]


def profile(S, n, depth, kind, second):
    xs = words(S, n)
    lines, items = [], []
    for i in range(n):
        if i == 0:
            d, k = 1, '*#'[kind]
        elif i == 1:
            d, k = second // 2 + 1, '*#'[second % 2]
        else:
            d, k = S.choice('l%d' % i, [(a, b) for a in range(1, depth + 1) for b in '*#'])
        lines.append(k * d + ' ' + xs[i])
        items.append((d, k, lib.esc(xs[i])))
    S.check(lib.same(conv(S, '\n'.join(lines)), nest(items)), 'the items nest as their bullets say')


def deep(S, n, kind):
    xs = words(S, n)
    d, k = 1, '*#'[kind]
    src, items = k + ' ' + xs[0], [(1, k, lib.esc(xs[0]))]
    for i in range(1, n):
        d = S.int('d%d' % i, 1, d + 1)
        # alternate kinds by depth, one switch allowed per level
        k = '*#'[(d + kind) % 2] if S.bool('k%d' % i) else '*#'[kind]
        src += '\n' + k * d + xs[i]
        items.append((d, k, lib.esc(xs[i])))
    S.check(lib.same(conv(S, src), nest(items)), 'the items nest as their bullets say')


def chain(S, n, kind):
    """down to any depth (step by step or skipping levels), then up to any level; and many items beside each other"""
    d = S.int('d', 2, n)
    step = S.choice('step', [1, 2, n])
    k2 = S.choice('k2', '*#')
    e = S.int('e', 1, n)
    S.require(e <= d)
    k3 = S.choice('k3', '*#')
    x, y, z = words(S, 3)
    items = [(1, '*#'[kind], x)]
    for i in range(1 + step, d, step):
        items.append((i, k2, 'i'))
    items.append((d, k2, y))
    items += [(e, k3, z)] + [(e, k3, 'j')] * S.choice('more', [0, n])
    html = conv(S, '\n'.join([k * i + ' ' + t for i, k, t in items]))
    S.check(lib.same(html, nest([(i, k, lib.esc(t)) for i, k, t in items])), 'the items nest as their bullets say')


def mixed(S, kind):
    xs = words(S, 3)
    heads = ['*', '#', '**', '##', '*#', '#*', '***', '*#*', '##*', '#*#', '**#']
    hs = ['*#'[kind], S.choice('h1', heads), S.choice('h2', heads)]
    items = [(len(h), h[-1], lib.esc(x)) for h, x in zip(hs, xs)]
    S.check(lib.same(conv(S, '\n'.join([h + ' ' + x for h, x in zip(hs, xs)])), nest(items)), 'the last bullet is the kind of the list')


def blanks(S):
    xs = words(S, 3)
    b = ['', ' ', '\t', '  ']
    hs = [S.choice('k', '*#'), S.choice('h1', ['*', '#', '**', '##']), S.choice('h2', ['*', '##', '***'])]
    # only one of the three lines has unusual blanks
    w = S.choice('b', b), S.choice('m', b[:3]), S.choice('a', b[:3])
    lines = []
    one = S.int('one', 0, 2)
    for i in range(3):
        x, y, z = w if i == one else ('', ' ', '')
        lines.append(x + hs[i] + y + xs[i] + z)
    S.check(lib.same(conv(S, '\n'.join(lines)), nest([(len(h), h[-1], lib.esc(x)) for h, x in zip(hs, xs)])), 'blanks around bullets and text do not matter')


def text(S, n, i):
    pre, a, b = (('* k', '<ul><li>', '</li></ul>'), ('* a\n** k', '<ul><li>a<ul><li>', '</li></ul></li></ul>'),
                 ('# a\n# k', '<ol><li>a</li><li>', '</li></ol>'), ('# a\n*** b\n## k', '<ol><li>a<ul><li>b</li></ul><ol><li>', '</li></ol></li></ol>'))[i]
    x = S.text('x', 1, n, lib.LINE)
    S.require(S.has(x[len(x) - 1], r'\S'))
    p = S.load('creole').creole2html('k' + x)
    S.check(lib.same(conv(S, pre + x), p.replace('<p>', a).replace('</p>', b)), 'the item holds its text, as in a paragraph')


def around(S, blog):
    x, y, z = words(S, 3)
    X, Y, Z = lib.esc(x), lib.esc(y), lib.esc(z)
    pre, hpre = S.choice('pre', [(z + '\n', '<p>' + Z + '</p>'), ('= ' + z + '\n', '<h1>' + Z + '</h1>'), ('----\n', '<hr />'), ('|' + z + '\n', '<table><tr><td>' + Z + '</td></tr></table>'),
                                 ('{{{\n' + z + '\n}}}\n', '<pre>' + Z + '</pre>'), (z + '\n\n', '<p>' + Z + '</p>'), ('\n\n', ''), ('**' + z + '**\n', '<p><strong>' + Z + '</strong></p>')])
    post, hpost = S.choice('post', [('\n\nk', '<p>k</p>'), ('\n= k', '<h1>k</h1>'), ('\n----', '<hr />'), ('\n|k', '<table><tr><td>k</td></tr></table>'),
                                    ('\n{{{\nk\n}}}', '<pre>k</pre>'), ('\n', ''), ('\n \n**k**', '<p><strong>k</strong></p>')])
    k, l = S.choice('k', '*#'), S.choice('l', ['*', '#', '**', '##'])
    html = conv(S, pre + k + ' ' + x + '\n' + l + ' ' + y + post, blog)
    S.check(lib.same(html, hpre + nest([(1, k, X), (len(l), l[0], Y)]) + hpost), 'a list between other blocks')


def continued(S, blog):
    x, y, z = words(S, 3)
    br = '<br />' if blog else ' '
    k, l = S.choice('k', '*#'), S.choice('l', ['*', '#', '**', '##'])
    if S.bool('last'):
        html = conv(S, k + ' ' + x + '\n' + l + ' ' + y + '\n' + z + ' z', blog)
        exp = nest([(1, k, lib.esc(x)), (len(l), l[0], lib.esc(y) + br + lib.esc(z) + ' z')])
    else:
        # a list that follows the continued item starts with a single bullet
        html = conv(S, k + ' ' + x + '\n' + y + ' y\n' + l[0] + ' ' + z, blog)
        exp = nest([(1, k, lib.esc(x) + br + lib.esc(y) + ' y'), (1, l[0], lib.esc(z))])
    S.check(lib.same(html, exp), 'a line after an item belongs to the item')


def two(S, blog):
    x, y, z = words(S, 3)
    k, l, m = S.choice('k', '*#'), S.choice('l', '*#'), S.choice('m', ['*', '#', '**', '##'])
    gap = S.choice('gap', ['\n\n', '\n \n', '\n\n\n'])
    html = conv(S, k + ' ' + x + gap + l + ' ' + y + '\n' + m + z, blog)
    S.check(lib.same(html, nest([(1, k, lib.esc(x))]) + nest([(1, l, lib.esc(y)), (len(m), m[0], lib.esc(z))])), 'a blank line ends the list')


def markup(S):
    x, y, z = words(S, 3)
    m, h = S.choice('m', [('**$**', '<strong>$</strong>'), ('//$//', '<i>$</i>'), ('[[$]]', '<a href="%">$</a>'), ('{{{$}}}', '<code>$</code>'), ('a **$** //$//', 'a <strong>$</strong> <i>$</i>'),
                          ('$\\\\$', '$<br />$'), ('~#$', '#$'), ('{{$|t}}', '<img src="%" title="t" alt="t" />'), ('a{{{* $}}}', 'a<code>* $</code>'), ('$ # $', '$ # $'), ('$ * $', '$ * $')])
    h = ''.join([lib.esc(y) if c == '$' else lib.attr(y) if c == '%' else c for c in h])
    k, l, n = S.choice('k', '*#'), S.choice('l', ['*', '#', '**', '##']), S.choice('n', ['*', '#', '**', '##', '***', '###'])
    html = conv(S, k + ' ' + x + '\n' + l + ' ' + y.join(m.split('$')) + '\n' + n + ' ' + z)
    S.check(lib.same(html, nest([(1, k, lib.esc(x)), (len(l), l[0], h), (len(n), n[0], lib.esc(z))])), 'items with markup')


def empty(S):
    """items without text keep their place"""
    x, z = words(S, 2)
    k, l, n = S.choice('k', '*#'), S.choice('l', ['*', '#', '**', '##']), S.choice('n', ['*', '#', '**', '##'])
    html = conv(S, k + ' ' + x + '\n' + l + S.choice('b', ['', ' ', '\t ']) + '\n' + n + ' ' + z)
    S.check(lib.same(html, nest([(1, k, lib.esc(x)), (len(l), l[0], ''), (len(n), n[0], lib.esc(z))])), 'empty items are items')
