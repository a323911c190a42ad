"""C13: the table of contents lists exactly the headings, properly linked."""
from harness import lib

BOUNDS = {
    'levels': 'up to 4 (quick) / 6 (thorough) headings, every sequence of levels 1 to 4, any one character texts, no depth',
    'depth': 'up to 3 / 4 headings of levels 1 to 4 or 7, depth absent, 0 to 12 (any spelling of the tag)',
    'text': 'every heading text of up to 5 / 7 characters (all of Unicode but line ends and tilde), two headings',
    'place': 'the tag in 10 positions, before, between and after headings, up to two more toc tags, nowiki and escaped ones',
    'absent': 'documents without a toc tag (also as nowiki, escaped, unclosed, other macros) and every text of up to 2 / 3 characters around',
}


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in range(5 if q else 7):
        out.append(('levels-%d' % n, 'levels', n))
    for n in range(4 if q else 5):
        for t in range(len(TAGS)):
            out.append(('depth-%d%d' % (n, t), 'depth', n, t))
    for i in range(4):
        out.append(('text-%d' % i, 'text', 5 if q else 7, i))
    out.append(('place', 'place', 0))
    out.append(('place-more', 'place', 1))
    out.append(('place-two', 'place', 2))
    out.append(('absent', 'absent', 2 if q else 3))
    out.append(('macros', 'macros'))
    return out


def contents(S, heads, level=1):
    """the nested list: a list inside the list per level, skipped levels included"""
    out = '<ul>'
    i = 0
    while i < len(heads):
        if heads[i][0] <= level:
            a = lib.attr(heads[i][1])
            out += '<li><a href="#' + a + '">' + lib.esc(heads[i][1]) + '</a></li>'
            i += 1
        else:
            j = i
            while j < len(heads) and heads[j][0] > level:
                j += 1
            out += contents(S, heads[i:j], level + 1)
            i = j
    return out + '</ul>'


def anchored(level, text):
    return '<a name="' + lib.attr(text) + '"><h%d>' % level + lib.esc(text) + '</h%d></a>' % level


def check(S, src, heads, expect, depth=None, **kw):
    """`expect` with # for the list of contents"""
    html = S.load('creole').creole2html(src, **kw)
    S.observe('html', html)
    toc = contents(S, [h for h in heads if depth is None or h[0] <= depth])
    a, b = expect
    S.check(lib.same(html, a + toc + b), 'the list of contents and the anchors')


def headings(S, n, levels):
    heads = []
    for i in range(n):
        heads.append((S.choice('l%d' % i, levels), S.text('t%d' % i, 1, 1, r'[^\s=~]')))
    return heads


def source(heads):
    return ''.join(['=' * l + ' ' + t + '\n' for l, t in heads])


def levels(S, n):
    heads = headings(S, n, [1, 2, 3, 4])
    check(S, '<<toc>>\n' + source(heads), heads, ('', ''.join([anchored(l, t) for l, t in heads])))


TAGS = ['<<toc>>', '<<toc depth=%>>', '<<toc depth="%">>', "<<toc depth='%' >>", '<<toc depth=% />>', '<<toc depth=%>><</toc>>']


def depth(S, n, t):
    heads = headings(S, n, [1, 2, 3, 4, 7])
    d = S.choice('d', list(range(9)) + [12]) if '%' in TAGS[t] else None
    tag = TAGS[t].replace('%', str(d))
    end = S.choice('end', ['', '\nx'])
    check(S, source(heads) + '\n' + tag + '\n' + end, heads, (''.join([anchored(l, t) for l, t in heads]), '<p>x</p>' if end else ''), d)


def text(S, n, i):
    """any heading text: the same in the list, the anchor and the heading"""
    t = S.text('t', 1, n, r'[^\n\r~]')
    t2 = t.strip()
    S.require(len(t2) > 0)
    S.require(S.no(t2.startswith('=')) if i < 2 else True)
    # trailing = belong to the closing of the heading
    S.require(S.no(S.matches(r'[\s\S]*=\s*', t)))
    S.require(S.no(S.matches(r'[=\s]*', t)))
    if i == 0:
        heads = [(1, t2)]
        src = '<<toc>>\n= ' + t
    elif i == 1:
        heads = [(2, t2), (1, 'b"<')]
        src = '<<toc>>\n== ' + t + ' ==\n= b"<'
    elif i == 2:
        S.require(S.no(S.has(t, '=')))
        heads = [(1, 'x'), (2, t2), (2, t2)]
        src = '<<toc>>\n= x =\n==' + t + '==\n==' + t
    else:
        S.require(S.no(S.has(t, '=')))
        src = '= ' + t + '\n<<toc depth=2>>\n=== ' + t
        heads = [(1, t2), (3, t2)]
        check(S, src, heads, (anchored(1, t2), anchored(3, t2)), 2)
        return
    check(S, src, heads, ('', ''.join([anchored(l, x) for l, x in heads])))


TOC = '&lt;&lt;toc&gt;&gt;'
# the tag at a place: source, and HTML around the list
PLACES = [('<<toc>>\n', '', ''), ('a <<toc>> b\n', '<p>a ', ' b</p>'), ('a\n\n<<toc>>\n\n', '<p>a</p>', ''), ('* a <<toc>>\n', '<ul><li>a ', '</li></ul>'),
          ('|a|<<toc>>|\n', '<table><tr><td>a</td><td>', '</td></tr></table>'), ('**<<toc>>**\n', '<p><strong>', '</strong></p>'), ('----\n<<toc>>\n----\n', '<hr />', '<hr />'),
          ('a\n<<toc>>\n', '<p>a<br />', '</p>'), ('<<toc>>\nb\n', '<p>', '<br />b</p>'), ('|= <<toc>> x\n', '<table><tr><th>', ' x</th></tr></table>')]
# what is no contents: further tags, nowiki, escapes
OTHERS = [('<<toc>>\n', '<p>' + TOC + '</p>'), ('a <<toc depth=1>> b\n', '<p>a ' + TOC + ' b</p>'), ('{{{<<toc>>}}}\n', '<p><code>' + TOC + '</code></p>'), ('{{{\n<<toc>>\n}}}\n', '<pre>' + TOC + '</pre>'),
          ('* <<toc>>\n', '<ul><li>' + TOC + '</li></ul>'), ('~<<toc>>\n', '<p>' + TOC + '</p>'), ('x\n', '<p>x</p>')]


def place(S, more):
    x = S.text('x', 1, 1, r'[^\s=~]')
    y = S.text('y', 1, 1, r'[^\s=~]')
    before, after = S.choice('heads', [(0, 0), (0, 2), (2, 0), (1, 1)])
    heads = [(1, x), (2, y)]
    src, a, b = S.choice('place', PLACES)
    if not before and not after:
        heads = []
    for l, t in heads[:before][::-1]:
        src = '=' * l + ' ' + t + '\n' + src
        a = anchored(l, t) + a
    # after the tag: further tags between the headings
    for i in range(more):
        s, h = S.choice('o%d' % i, OTHERS)
        src += '\n' + s
        b += h
        if i == 0 and before < len(heads):
            src += source(heads[before:])
            b += ''.join([anchored(l, t) for l, t in heads[before:]])
    if not more:
        src += source(heads[before:])
        b += ''.join([anchored(l, t) for l, t in heads[before:]])
    if S.bool('nowiki'):
        s, h = S.choice('n', OTHERS[2:4] + OTHERS[5:])
        src = s + '\n' + src
        a = h + a
    check(S, src, heads, (a, b))


ABSENT = ['%', '{{{<<toc>>}}}%', '~<<toc>> %', '<<toc %', '%<<tocs>>', '<< <<', '{{{\n<<toc>>\n}}}\n%', 'toc %', '%>>', '<<x>>toc<</x>>']


def absent(S, n):
    """no tag, no anchors, no list"""
    t = S.text('t', 0, n, r'[^<\n\r=~*#|{}\[\]_-]')
    S.require(S.no(S.matches('[\\s\\S]*>>[\\s\\S]*', t)))
    l = S.choice('l', [1, 2, 6])
    h = S.text('h', 1, 2, r'[^\s=~]')
    src = S.choice('f', ABSENT).replace('%', t)
    src = '=' * l + h + '\n\n' + src + '\n\n== b\n'
    html = S.load('creole').creole2html(src, macros={'tocs': lambda text=None: 'M'}, verbose=0)
    S.observe('html', html)
    S.check('<a ' not in html and '<ul>' not in html, 'no anchors and no list')
    e = '<h%d>' % l + lib.esc(h) + '</h%d>' % l
    html = lib.flat(html)
    S.check(html[:len(e)] == e, 'the heading')
    S.check(html[len(html) - 10:] == '<h2>b</h2>', 'and the second')


class Box:
    def m(self, text=None):
        return 'M'


def macros(S):
    """with macros of the user: in a dict, as attributes, one called toc"""
    x = S.text('x', 1, 2, r'[^\s=~]')
    kind = S.choice('kind', ['none', 'dict', 'object', 'own'])
    table = {'none': None, 'dict': {'m': lambda text=None: 'M'}, 'object': Box(), 'own': {'toc': lambda text=None: 'T'}}[kind]
    src = '<<toc>>\n= ' + x + '\n<<m>>'
    if kind == 'own':
        html = S.load('creole').creole2html(src, macros=table, verbose=0)
        S.check(lib.same(html, '<p>T</p><h1>' + lib.esc(x) + '</h1><p></p>'), 'a macro of the user replaces it')
        return
    check(S, src, [(1, x)], ('', anchored(1, x) + ('<p>M</p>' if kind != 'none' else '<p></p>')), None, macros=table, verbose=0)
