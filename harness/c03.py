"""C03: creole2html loses and invents no text."""
from harness import lib

BOUNDS = {
    'free': 'every text of up to 5 (quick) / 6 (thorough) Unicode characters without "[", "{", "<": the characters '
            'that mean nothing in Creole come out the same, in the same order',
    'line': 'every line of up to 5 / 6 characters without a complete marker comes out as exactly itself',
    'place': 'every text of up to 12 (quick) / 24 (thorough) characters that mean nothing in Creole, in each place that '
             'holds text (paragraph, heading, item, cell, link text, image title, typeface, ...)',
}

# characters that neither mean anything in Creole nor are white space
SOLID = r'[^\s*/#^,_~=|\\\-\[\]{}<>]'


def cases(tier):
    n, k = (5, 12) if tier == 'quick' else (6, 24)
    out = []
    for blog in (True, False):
        for strict in (True, False):
            if tier == 'quick' and blog == strict:
                continue
            out.append(('free-%d%d' % (blog, strict), 'free', n, blog, strict))
    for i, (a, b) in enumerate((('a', 'b'), ('* a', 'b'), ('|a', 'b|c'), ('a **c', 'd** b'), ('a\n', '\nb'))):
        out.append(('mid-%d' % i, 'mid', n - 1, a, b, i % 2 == 0))
    out.append(('line', 'line', n, True))
    out.append(('line-wiki', 'line', n, False))
    for i, p in enumerate(PLACES):
        out.append(('place-%02d' % i, 'place', k) + p)
    return out


# before, after, HTML before, HTML after, how often
PLACES = [
    ('', '', '<p>', '</p>'), ('a ', ' b', '<p>a ', ' b</p>'), ('= ', '', '<h1>', '</h1>'), ('=== a', ' ===', '<h3>a', '</h3>'),
    ('* ', '', '<ul>\n\t<li>', '</li>\n</ul>'), ('# a ', '\n# b', '<ol>\n\t<li>a ', '</li>\n\t<li>b</li>\n</ol>'),
    ('* a\n** ', '', '<ul>\n\t<li>a\n\t<ul>\n\t\t<li>', '</li>\n\t</ul></li>\n</ul>'),
    ('|', '|b|', '<table>\n<tr>\n\t<td>', '</td>\n\t<td>b</td>\n</tr>\n</table>'),
    ('|=', '|=b', '<table>\n<tr>\n\t<th>', '</th>\n\t<th>b</th>\n</tr>\n</table>'),
    ('|a|', '', '<table>\n<tr>\n\t<td>a</td>\n\t<td>', '</td>\n</tr>\n</table>'),
    ('[[a|', ']]', '<p><a href="a">', '</a></p>'), ('**', '**', '<p><strong>', '</strong></p>'),
    ('a //x', 'y// b', '<p>a <i>x', 'y</i> b</p>'), ('a{{{', '}}}b', '<p>a<code>', '</code>b</p>'),
    ('{{{\n', '\n}}}', '<pre>\n', '\n</pre>'), ('a\n', '\nb', '<p>a<br />\n', '<br />\nb</p>'),
    ('a\n\n', '\n\nb', '<p>a</p>\n\n<p>', '</p>\n\n<p>b</p>'), ('a\\\\', 'b', '<p>a<br />\n', 'b</p>'),
    ('| **', '**', '<table>\n<tr>\n\t<td><strong>', '</strong></td>\n</tr>\n</table>'),
    ('* //', '//', '<ul>\n\t<li><i>', '</i></li>\n</ul>'),
    ('a __,,', ',,__', '<p>a <u><sub>', '</sub></u></p>'), ('a ^^--', '--^^ ', '<p>a <sup><small>', '</small></sup> </p>'),
    ('##~~', '~~##', '<p><tt><del>', '</del></tt></p>'),
]


def free(S, n, blog, strict):
    creole = S.load('creole')
    src = S.text('t', 0, n, r'[^\[{<]')
    html = creole.creole2html(src, blog_line_breaks=blog, strict=strict, verbose=0)
    S.observe('html', html)
    S.check(S.keep(lib.visible(S, html), SOLID) == S.keep(src, SOLID), 'text characters lost, invented or moved')


def mid(S, n, a, b, blog):
    creole = S.load('creole')
    src = a + S.text('t', 0, n, r'[^\[{<]') + b
    html = creole.creole2html(src, blog_line_breaks=blog, verbose=0)
    S.observe('html', html)
    S.check(S.keep(lib.visible(S, html), SOLID) == S.keep(src, SOLID), 'text characters lost, invented or moved')


def line(S, n, blog):
    """lone markup characters are text"""
    creole = S.load('creole')
    x = S.text('t', 0, n, lib.LINE)
    for m in ('**', '//', '##', '^^', ',,', '__', '--', '\\\\', '[[', '{{', '<<', '://'):
        S.require(m not in x)
    S.require('~' not in x)
    html = creole.creole2html('a' + x + 'b', blog_line_breaks=blog)
    S.observe('html', html)
    S.check(lib.same(html, '<p>a' + lib.esc(x) + 'b</p>'), 'a line without markup is kept as it is')


def place(S, n, pre, post, hpre, hpost):
    creole = S.load('creole')
    x = S.text('t', 1, 2, lib.PLAIN) + S.text('u', 0, n - 2, r'[^\S\n\r]|' + lib.PLAIN)
    x += S.text('v', 1, 1, lib.PLAIN)
    html = creole.creole2html(pre + x + post)
    S.observe('html', html)
    S.check(lib.same(html, hpre + lib.esc(x) + hpost), 'the text is kept as it is')
