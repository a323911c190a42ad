"""C05: nowiki areas and tilde escapes are verbatim."""
from harness import lib

BOUNDS = {
    'inline': 'every one-line nowiki content of up to 5 (quick) / 7 (thorough) Unicode characters in 8 contexts',
    'markup': 'every construct of a list of 30 inside a nowiki area, next to symbolic text',
    'block': 'every nowiki block content of up to 5 / 7 Unicode characters (line breaks included), and of up to 4 lines '
             'out of symbolic lines, closing look-alikes and escaped closings',
    'tilde': 'a tilde before every character, in 8 contexts; before every marker; before URLs of all schemes',
}
INL = [('a ', ' b', '<p>a ', ' b</p>'), ('', '', '<p>', '</p>'), ('* ', ' b', '<ul>\n\t<li>', ' b</li>\n</ul>'),
       ('|a |', '|b|', '<table>\n<tr>\n\t<td>a</td>\n\t<td>', '</td>\n\t<td>b</td>\n</tr>\n</table>'),
       ('a **', '** b', '<p>a <strong>', '</strong> b</p>'), ('x //', '//', '<p>x <i>', '</i></p>'),
       ('a {{{b}}} ', ' {{{c}}}', '<p>a <code>b</code> ', ' <code>c</code></p>'),
       ('# a\n## ', '\n# c', '<ol>\n\t<li>a\n\t<ol>\n\t\t<li>', '</li>\n\t</ol></li>\n\t<li>c</li>\n</ol>')]

MARKUP = ['**a**', '//a//', '##a##', '__a__', '--a--', '~~a~~', '^^a^^', ',,a,,', '**', '//', '~', '~a', '~~', '\\\\', '[[a]]', '[[a|b]]',
          '[[', '{{a}}', '{{a|b}}', '<<a>>', '<<a>>b<</a>>', '<<toc>>', 'http://a', '<b>', '&amp;', '&', '"', '= a =', '* a', '|a|', '----',
          '}', '}}', '{{{', '#!python', "'", '\\', '<!-- a -->', '# a']


def cases(tier):
    n = 5 if tier == 'quick' else 7
    out = []
    for i, c in enumerate(INL):
        out.append(('inline-%d' % i, 'inline', n, i % 2 == 0) + c)
        out.append(('markup-%d' % i, 'markup', i % 2 == 1) + c)
    for blog in (True, False):
        out.append(('block-%d' % blog, 'block', n, blog))
    out.append(('lines', 'lines', 3 if tier == 'quick' else 4))
    out.append(('blockmarkup', 'blockmarkup'))
    for i, c in enumerate(TILDE):
        out.append(('tilde-%d' % i, 'tilde') + c)
        out.append(('tildem-%d' % i, 'tildemark') + c)
    out.append(('space', 'space'))
    out.append(('url', 'url'))
    out.append(('line', 'linestart'))
    out.append(('many', 'many', 3))
    return out


def conv(S, src, blog=True):
    html = S.load('creole').creole2html(src, blog_line_breaks=blog)
    S.observe('html', html)
    return html


def inline(S, n, blog, pre, post, hpre, hpost):
    x = S.text('x', 0, n, lib.LINE)
    # the area ends at the first }}}
    S.require('}}}' not in (x + '}}'))
    if pre.endswith('**'):
        S.require('**' not in x)
    if pre.endswith('//'):
        S.require('//' not in x)
    if pre == '':
        S.require(S.no(x == '') if S.sym else x != '')
    html = conv(S, pre + '{{{' + x + '}}}' + post, blog)
    S.check(lib.same(html, hpre + '<code>' + lib.esc(x) + '</code>' + hpost), 'a nowiki text is kept as it is')


def markup(S, blog, pre, post, hpre, hpost):
    m = S.choice('m', MARKUP)
    x, y = S.text('x', 0, 2, lib.PLAIN), S.text('y', 1, 2, lib.PLAIN)
    if (pre.endswith('**') and '**' in m) or (pre.endswith('//') and '//' in m):
        S.cover('skipped')
        return
    html = conv(S, pre + '{{{' + x + m + y + '}}}' + post, blog)
    S.check(lib.same(html, hpre + '<code>' + lib.esc(x + m + y) + '</code>' + hpost), 'markup in a nowiki text is kept as it is')


def block(S, n, blog):
    x = S.text('x', 0, n, r'[^\r]')
    S.require('}}}' not in x)
    html = conv(S, 'k\n{{{\n' + x + '\n}}}\nz', blog)
    S.check(lib.alike(html, '<p>k</p>\n<pre>\n' + lib.esc(x) + '\n</pre>\n<p>z</p>'), 'the content of a nowiki block is kept as it is')


def lines(S, n):
    """lines of all sorts: only the escaped closing line changes, by exactly its tilde"""
    src, exp = '', ''
    for i in range(n):
        k = S.choice('k%d' % i, ('text', 'blank', 'escaped', 'indented escape', 'inside', 'tilde inside', 'two tildes'))
        if k == 'text':
            x = S.text('x%d' % i, 1, 2, lib.PLAIN)
            src += x + '\n'
            exp += lib.esc(x) + '\n'
        else:
            a, b = {'blank': ('', ''), 'escaped': ('~}}}', '}}}'), 'indented escape': ('  ~}}}', '  }}}'), 'inside': (' a }}} b', ' a }}} b'),
                    'tilde inside': ('a ~}}}', 'a ~}}}'), 'two tildes': ('~~}}}', '~~}}}')}[k]
            src += a + '\n'
            exp += b + '\n'
    html = conv(S, '{{{\n' + src + '}}}')
    S.check(lib.alike(html, '<pre>\n' + exp + '</pre>'), 'a nowiki block is kept as it is, escaped closings lose their tilde')


def blockmarkup(S):
    m = S.choice('m', MARKUP + ['----', '== a\n* b', '<<a>>\nb\n<</a>>', '{{{', '  {{{a}}}', '\ta\n\n\n b', '|=a|b', '~}}} a'])
    x = S.text('x', 0, 2, lib.PLAIN)
    blog = S.bool('blog')
    html = conv(S, 'a\n\n{{{\n' + m + x + '\n}}}\n\nb', blog)
    S.check(lib.alike(html, '<p>a</p>\n\n<pre>\n' + lib.esc(m + x) + '\n</pre>\n\n<p>b</p>'), 'markup in a nowiki block is kept as it is')


TILDE = [('a', 'b', '<p>a', 'b</p>'), ('', 'b', '<p>', 'b</p>'), ('* a', 'b', '<ul>\n\t<li>a', 'b</li>\n</ul>'),
         ('|a', 'b|', '<table>\n<tr>\n\t<td>a', 'b</td>\n</tr>\n</table>'), ('**a', 'b**', '<p><strong>a', 'b</strong></p>'),
         ('a\n', 'b', '<p>a<br />\n', 'b</p>'), ('a __//b', 'c//__', '<p>a <u><i>b', 'c</i></u></p>'),
         ('{{{a}}}', '[[b]]', '<p><code>a</code>', '<a href="b">b</a></p>'),
         ('|=a', 'b', '<table>\n<tr>\n\t<th>a', 'b</th>\n</tr>\n</table>')]


def tilde(S, pre, post, hpre, hpost):
    x = S.text('x', 1, 1, r'\S')
    if pre.startswith('|'):
        # a bar always ends the cell
        S.require('|' not in x)
    if pre.startswith('**'):
        S.require(x != '*')
    if '//' in pre:
        S.require(x != '/')
    html = conv(S, pre + '~' + x + post)
    S.check(lib.same(html, hpre + lib.esc(x) + hpost), 'a tilde keeps the next character from being markup')


def tildemark(S, pre, post, hpre, hpost):
    """an escaped first character takes the meaning of the whole marker"""
    m = S.choice('m', ('**', '//', '##', '^^', ',,', '__', '--', '[[', '\\\\', '<<'))
    if pre.startswith(m) or m in pre:
        S.cover('skipped')
        return
    x = S.text('x', 1, 2, lib.PLAIN)
    html = conv(S, pre + '~' + m + x + post)
    S.check(lib.same(html, hpre + lib.esc(m + x) + hpost), 'a tilde keeps the marker from being markup')


def space(S):
    x = S.text('x', 1, 1, r'[^\S\n\r]')
    y = S.text('y', 1, 2, lib.PLAIN)
    html = conv(S, 'a~' + x + y + '~')
    S.check(lib.same(html, '<p>a~' + x + lib.esc(y) + '~</p>'), 'a tilde before white space is kept')


def url(S):
    p = S.choice('p', lib.SCHEMES)
    pre, hpre = S.choice('w', (('', '<p>'), ('a ', '<p>a '), ('* a ', '<ul>\n\t<li>a '), ('a\n', '<p>a<br />\n'), ('|', '<table>\n<tr>\n\t<td>')))
    post, hpost = {'<p>': (' z', ' z</p>'), '<ul': (' z', ' z</li>\n</ul>'), '<ta': (' z|', ' z</td>\n</tr>\n</table>')}[hpre[:3]]
    x = S.text('x', 1, 3, r'[^\s$|]')
    html = conv(S, pre + '~' + p + '://' + x + post)
    S.check(lib.same(html, hpre + p + '://' + lib.esc(x) + hpost), 'an escaped URL is text')


def linestart(S):
    m, = S.choice('m', (('*',), ('#',), ('=',), ('==',), ('|',), ('|=',), ('* ',), ('# ',), ('= ',), ('----',)))
    x = S.text('x', 0, 2, lib.PLAIN)
    blog = S.bool('blog')
    html = conv(S, 'k\n\n~' + m + x + 'a', blog)
    S.check(lib.same(html, '<p>k</p>\n\n<p>' + m + lib.esc(x) + 'a</p>'), 'a tilde keeps a block marker from being markup')


def many(S, n):
    """escapes one after the other"""
    src, exp = '', ''
    for i in range(n):
        x = S.text('x%d' % i, 1, 1, r'[^\s~]')
        src += '~' + x
        exp += x
    html = conv(S, 'a' + src + 'b')
    S.check(lib.same(html, '<p>a' + lib.esc(exp) + 'b</p>'), 'each tilde keeps the next character')
