"""C06: links, images and bare URLs keep target, text and size exactly."""
import re
from harness import lib

BOUNDS = {
    'link': 'every link target and every link text of up to 4 (quick) / 6 (thorough) characters, in 8 contexts',
    'image': 'every image target and title of up to 4 / 6 characters, in 8 contexts, both strict modes',
    'size': 'widths and heights of up to 3 / 6 digits, with blanks; every image text of up to 6 / 8 characters out of '
            '"|xX×019a " in both strict modes',
    'url': 'URLs of all schemes with every rest of up to 4 / 6 characters, at the start of a line, after white space and '
           'inside words; every other scheme name of up to 4 / 5 letters',
    'empty': '[[]] and {{}} between every two texts of up to 2 / 3 characters, in 7 contexts',
}
CONTEXTS = [
    ('', '', '<p>', '</p>'), ('a ', ' b', '<p>a ', ' b</p>'), ('* x', 'y', '<ul>\n\t<li>x', 'y</li>\n</ul>'),
    ('# a\n## x', 'y', '<ol>\n\t<li>a\n\t<ol>\n\t\t<li>x', 'y</li>\n\t</ol></li>\n</ol>'),
    ('|x', 'y|', '<table>\n<tr>\n\t<td>x', 'y</td>\n</tr>\n</table>'), ('x\n', 'y\nz', '<p>x<br />\n', 'y<br />\nz</p>'),
    ('[[a]]', '[[b|c]]', '<p><a href="a">a</a>', '<a href="b">c</a></p>'),
    ('{{a}}', '{{b|c}}', '<p><img src="a" title="a" alt="a" />', '<img src="b" title="c" alt="c" /></p>'),
    ('__k', 'l__', '<p><u>k', 'l</u></p>'),
]
LINE = lib.LINE


def cases(tier):
    q = tier == 'quick'
    n = 4 if q else 6
    out = []
    for i, c in enumerate(CONTEXTS):
        out.append(('link-%d' % i, 'link', n, i % 2 == 0) + c)
        out.append(('text-%d' % i, 'linktext', n, i % 2 == 0) + c)
        out.append(('image-%d' % i, 'image', n, i % 2 == 0) + c)
        out.append(('title-%d' % i, 'title', n, i % 2 == 0) + c)
        out.append(('size-%d' % i, 'size', 3 if q else 6) + c)
    for strict in (False, True):
        out.append(('text-size-%d' % strict, 'anysize', 6 if q else 8, strict))
        out.append(('title-esc-%d' % strict, 'title', n, strict) + CONTEXTS[1])
    out.append(('linkimage', 'linkimage', 3))
    out.append(('linkbreak', 'linkbreak', 3))
    for i in (0, 1, 2, 4, 5):
        out.append(('url-%d' % i, 'url', n, CONTEXTS[i][0] + (' ' if i > 1 and i != 5 else ''), CONTEXTS[i][1],
                    CONTEXTS[i][2] + (' ' if i > 1 and i != 5 else ''), CONTEXTS[i][3]))
    out.append(('urls', 'urls', 2))
    out.append(('nourl', 'nourl', 2))
    out.append(('scheme', 'scheme', 4 if q else 5))
    out.append(('many', 'many', 2))
    for i in (0, 1, 2, 3, 4, 5, 8):
        out.append(('empty-%d' % i, 'empty', 2 if q else 3) + CONTEXTS[i])
    return out


def conv(S, src, strict=False):
    html = S.load('creole').creole2html(src, strict=strict)
    S.observe('html', html)
    return html


def target(S, n, ends, ctx):
    """a target with something in it, that neither ends the construct nor starts its text"""
    x = S.text('x', 1, n, LINE)
    for e in (ends, '|'):
        S.require(e not in x)
    S.require(S.no(x[len(x) - 1] == ends[0]))
    return nonblank(S, x, ctx)


def nonblank(S, x, ctx):
    S.require(S.has(x, r'\S'))
    if ctx.startswith('__'):
        S.require('__' not in x)
    return x


def link(S, n, strict, pre, post, hpre, hpost):
    x = target(S, n, ']]', pre)
    html = conv(S, pre + '[[' + x + ']]' + post, strict)
    t = x.strip()
    S.check(lib.same(html, hpre + '<a href="' + lib.attr(t) + '">' + lib.esc(t) + '</a>' + hpost), 'a link to its target')


def image(S, n, strict, pre, post, hpre, hpost):
    x = target(S, n, '}}', pre)
    S.require(S.no(x[0] == '{'))     # three braces start a nowiki text
    html = conv(S, pre + '{{' + x + '}}' + post, strict)
    t = lib.attr(x.strip())
    S.check(lib.same(html, hpre + '<img src="' + t + '" title="' + t + '" alt="' + t + '" />' + hpost), 'an image with its source')


def title(S, n, strict, pre, post, hpre, hpost):
    x = S.text('x', 1, n, LINE)
    nonblank(S, x, pre)
    S.require('}}' not in x)
    S.require(S.no(x[len(x) - 1] == '}'))
    S.require('|' not in x)
    html = conv(S, pre + '{{k.png|' + x + '}}' + post, strict)
    t = lib.attr(x.strip())
    S.check(lib.same(html, hpre + '<img src="k.png" title="' + t + '" alt="' + t + '" />' + hpost), 'an image with its title')


def linktext(S, n, strict, pre, post, hpre, hpost):
    x = S.text('x', 1, n, LINE)
    nonblank(S, x, pre)
    for e in (']]', '{{', '\\\\'):
        S.require(e not in x)
    S.require(S.no(x[len(x) - 1] == ']'))
    html = conv(S, pre + '[[http://k|' + x + ']]' + post, strict)
    S.check(lib.same(html, hpre + '<a href="http://k">' + lib.esc(x.strip()) + '</a>' + hpost), 'a link with its text')


def size(S, n, pre, post, hpre, hpost):
    x = S.text('x', 0, 2, r'[^\s|{}_]')
    w, h = S.text('w', 1, n, '[0-9]'), S.text('h', 1, n, '[0-9]')
    sp = S.choice('sp', ('', ' '))
    strict = S.bool('strict')
    html = conv(S, pre + '{{k|' + x + '|' + sp + w + sp + 'x' + sp + h + sp + '}}' + post, strict)
    if strict:
        t = lib.attr((x + '|' + sp + w + sp + 'x' + sp + h).strip())
        exp = '<img src="k" title="' + t + '" alt="' + t + '" />'
    else:
        t = lib.attr(x) if len(x) else 'k'
        exp = '<img src="k" title="' + t + '" alt="' + t + '" width="' + num(w) + '" height="' + num(h) + '" />'
    S.check(lib.same(html, hpre + exp + hpost), 'an image with its size')


def num(d):
    # without leading zeros
    return str(int(d))


def anysize(S, n, strict):
    x = S.text('x', 1, n, r'[|xX×019a ]')
    S.require(S.has(x, r'\S'))
    html = conv(S, '{{k|' + x + '}}', strict)
    t = x.strip()
    m = None if strict else re.fullmatch(r'([^|]*)\|\s*([0-9]+)\s*x\s*([0-9]+)\s*', t)
    if m:
        a = m.group(1) or 'k'
        exp = '<img src="k" title="' + a + '" alt="' + a + '" width="' + num(m.group(2)) + '" height="' + num(m.group(3)) + '" />'
    else:
        exp = '<img src="k" title="' + t + '" alt="' + t + '" />'
    S.check(lib.same(html, '<p>' + exp + '</p>'), 'only |WxH at the end is a size')


def linkimage(S, n):
    a, b, c = [S.text(k, 1, n, lib.PLAIN) for k in 'abc']
    k = S.choice('k', ('target', 'title', 'size'))
    src = '{{' + b + {'target': '', 'title': '|' + c, 'size': '|' + c + '|1x2'}[k] + '}}'
    t = lib.attr(b if k == 'target' else c)
    img = '<img src="' + lib.attr(b) + '" title="' + t + '" alt="' + t + '"' + (' width="1" height="2"' if k == 'size' else '') + ' />'
    w = S.choice('w', ('alone', 'before', 'after'))
    src = {'alone': src, 'before': 'x' + src, 'after': src + 'x'}[w]
    img = {'alone': img, 'before': 'x' + img, 'after': img + 'x'}[w]
    html = conv(S, 'a [[' + a + '|' + src + ']] b')
    S.check(lib.same(html, '<p>a <a href="' + lib.attr(a) + '">' + img + '</a> b</p>'), 'a link around an image')


def linkbreak(S, n):
    a, b, c = [S.text(k, 1, n, lib.PLAIN) for k in 'abc']
    html = conv(S, 'a [[' + a + '|' + b + '\\\\' + c + ']] b')
    S.check(lib.same(html, '<p>a <a href="' + lib.attr(a) + '">' + lib.esc(b) + '<br />\n' + lib.esc(c) + '</a> b</p>'), 'a line break in a link text')


def url(S, n, pre, post, hpre, hpost):
    p = S.choice('p', lib.SCHEMES)
    x = S.text('x', 1, n, r'[^\s$|]')
    if post and not post.startswith(('\n', '|', ' ')):
        post, hpost = ' ' + post, ' ' + hpost
    if post.startswith('|'):
        # the cell is trimmed
        post, hpost = ' ' + post, hpost
    html = conv(S, pre + p + '://' + x + post)
    u = p + '://' + x
    S.check(lib.same(html, hpre + '<a href="' + lib.attr(u) + '">' + lib.esc(u) + '</a>' + hpost), 'a bare URL is a link to itself')


def urls(S, n):
    x, y = S.text('x', 1, n, r'[^\s$|]'), S.text('y', 1, n, r'[^\s$|]')
    sep = S.choice('s', (' ', '\t', ' a ', '\n', ' ('))
    tail = S.choice('t', ('', ' ', '$', '$b'))
    html = conv(S, 'http://' + x + sep + ('' if sep == ' (' else 'ftp://') + y + tail)
    a, b = lib.esc('http://' + x), lib.esc('ftp://' + y)
    if sep == ' (':
        S.require('~' not in y)
        for m in lib.MARKS:
            S.require(m not in (y + tail))
        b = lib.esc(y)
    else:
        b = '<a href="' + lib.attr('ftp://' + y) + '">' + b + '</a>'
    S.check(lib.same(html, '<p><a href="' + lib.attr('http://' + x) + '">' + a + '</a>' + ('<br />\n' if sep == '\n' else sep) + b + tail + '</p>'),
            'bare URLs end at white space')


def nourl(S, n):
    """inside a word it is text"""
    p = S.choice('p', lib.SCHEMES)
    c = S.text('c', 1, n, lib.PLAIN)
    x = S.text('x', 1, n, lib.PLAIN)
    html = conv(S, 'k ' + c + p + '://' + x + ' z')
    for q in lib.SCHEMES:
        S.require(c + p != q)
    S.check(lib.same(html, '<p>k ' + lib.esc(c + p + '://' + x) + ' z</p>'), 'no link inside of a word')


def scheme(S, n):
    p = S.text('p', 1, n, '[a-zA-Z]')
    for q in lib.SCHEMES:
        S.require(p != q)
    html = conv(S, 'k ' + p + '://x.y z')
    S.check(lib.same(html, '<p>k ' + p + '://x.y z</p>'), 'other schemes are text')


def many(S, n):
    a, b, c, d = [S.text(k, 1, n, lib.PLAIN) for k in 'abcd']
    html = conv(S, '[[' + a + ']] [[' + b + '|' + c + ']]{{' + d + '}} {{' + a + '|' + b + '}}[[' + c + ']]')
    A, B, C, D = [lib.attr(k) for k in (a, b, c, d)]
    S.check(lib.same(html, '<p><a href="' + A + '">' + lib.esc(a) + '</a> <a href="' + B + '">' + lib.esc(c) + '</a><img src="' + D +
            '" title="' + D + '" alt="' + D + '" /> <img src="' + A + '" title="' + B + '" alt="' + B + '" /><a href="' + C + '">' +
            lib.esc(c) + '</a></p>'), 'each link and image has its own target and text')


def empty(S, n, pre, post, hpre, hpost):
    """without a target it is text"""
    a, b = S.text('a', 0, n, lib.PLAIN), S.text('b', 0, n, lib.PLAIN)
    src = a + S.choice('what', ['[[]]', '{{}}', '[[', ']]', '{{', '}}']) + b
    html = conv(S, pre + src + post, S.bool('strict'))
    S.check(lib.same(html, hpre + lib.esc(src) + hpost), 'brackets without a target are text')
