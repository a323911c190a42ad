"""C15: html2creole maps each element to its markup; plain Creole text round trips."""
import os
import posixpath

from harness import lib

BOUNDS = {
    'inline': 'every typeface element, alone and pairwise nested, in 7 surroundings, every text of up to 3 (quick) / 5 (thorough) characters but "<", "&" and white space',
    'head': 'heading levels 1 to 6, every text of up to 4 / 6 characters',
    'link': 'every target and text of up to 3 / 4 characters in 6 forms of the tag',
    'image': 'every src, alt and title of up to 2 / 3 characters, with and without width and height (up to 3 digits and "%"), strict on and off, data: sources, attribute orders',
    'block': 'rules, line breaks, paragraphs, nowiki areas with every content of up to 3 / 5 characters',
    'list': 'every list of up to 4 / 5 items down to level 3 of either kind, nested inside and beside the item',
    'round': 'every pair of 16 Creole blocks, and every inline construct in each, with words of up to 2 / 3 characters without markup',
}
# a text that stands in HTML as it is
H = r'[^\s<&]'
WORD = lib.PLAIN
# the same without references
W = '[^&' + lib.PLAIN[2:]
# what an attribute in double quotes can be
A = r'[^"&<>\s]'
FACE = {'strong': '**', 'b': '**', 'big': '**', 'i': '//', 'em': '//', 'tt': '##', 'sup': '^^', 'sub': ',,', 'u': '__', 'small': '--', 'del': '~~', 'strike': '~~', 'code': None, 'span': '', 'STRONG': '**', 'Em': '//'}


def cases(tier):
    q = tier == 'quick'
    out = []
    for i in range(len(AROUND)):
        out.append(('inline-%d' % i, 'inline', i, 3 if q else 5))
        out.append(('nested-%d' % i, 'nested', i, 1 if q else 2))
    out.append(('head', 'head', 4 if q else 6))
    for i in range(len(LINKS)):
        out.append(('link-%d' % i, 'link', 3 if q else 4, i))
    for strict in (0, 1):
        out.append(('image-%d' % strict, 'image', 2 if q else 3, strict))
        out.append(('size-%d' % strict, 'size', 3 if q else 4, strict))
        out.append(('data-%d' % strict, 'data', 3 if q else 5, strict))
    out.append(('blocks', 'blocks', 2 if q else 3))
    out.append(('pre', 'pre', 3 if q else 5))
    for n in range(1, 5 if q else 6):
        for nest in range(3):
            out.append(('list-%d-%d' % (n, nest), 'lists', n, nest))
    for i in range(len(ROUND)):
        out.append(('round-' + str(i), 'rounds', i, 2 if q else 3))
    out.append(('round-inline', 'round_inline', 2 if q else 3))
    out.append(('round-list', 'round_list', 4 if q else 5))
    out.append(('round-size', 'round_size', 3))
    return out


def conv(S, html, **kw):
    out = S.load('creole').html2creole(html, **kw)
    S.observe('out', out)
    return out


def is_(S, html, creole, what='exactly its markup', **kw):
    S.check(conv(S, html, **kw) == creole, what)


AROUND = [('%', '%'), ('<p>%</p>', '%'), ('<p>a %</p>', 'a %'), ('<p>% b</p>\n\n<p>c</p>', '% b\n\nc'), ('<h2>%</h2>', '== %'), ('<ul>\n\t<li>%</li>\n\t<li>b</li>\n</ul>', '* %\n* b'),
          ('<table>\n<tr>\n\t<th>%</th>\n\t<td>%</td>\n</tr>\n</table>', '|= % | % |')]


def put(form, x):
    out = ''
    bits = form.split('%')
    for i, b in enumerate(bits):
        out += (x if i else '') + b
    return out


def mark(tag, t):
    m = FACE[tag]
    return '{{{' + t + '}}}' if m is None else m + t + m


def inline(S, i, n):
    pre, post = AROUND[i]
    tag = S.choice('tag', list(FACE))
    t = S.text('t', 1, n, H if i != 5 else r'[^\s<&\\]')
    if S.bool('attr'):
        is_(S, put(pre, '<' + tag + ' class="x">' + t + '</' + tag + '>'), put(post, mark(tag, t)))
    else:
        is_(S, put(pre, '<' + tag + '>' + t + '</' + tag + '>'), put(post, mark(tag, t)))


def nested(S, i, n):
    pre, post = AROUND[i]
    a = S.choice('a', [x for x in FACE if x not in ('code', 'span')])
    b = S.choice('b', [x for x in FACE if x not in ('code', 'span', 'STRONG', 'Em')])
    t, u, v = S.text('t', 0, n, W), S.text('u', 1, n, W), S.text('v', 0, n, W)
    is_(S, put(pre, '<%s>' % a + t + '<%s>' % b + u + '</%s>' % b + v + '</%s>' % a), put(post, mark(a, t + mark(b, u) + v)))


def head(S, n):
    k = S.int('level', 1, 6)
    t = S.text('t', 1, n, H)
    tag = S.choice('tag', ['h%d', 'H%d']) % k
    pre, post = S.choice('in', [('', ''), ('<p>a</p>\n', '\n\n<p>b</p>'), ('<p>a</p>', '<p>b</p>'), ('<div>', '</div>')])
    is_(S, pre + '<' + tag + '>' + t + '</' + tag + '>' + post, ('a\n\n' if 'a' in pre else '') + '=' * k + ' ' + t + ('\n\nb' if 'b' in post else ''))


LINKS = ['<a href="%">#</a>', "<a href='%'>#</a>", '<a title="x" href="%" class="y">#</a>', '<A HREF="%">#</A>', '<a href="%"><i>#</i></a>', '<a href="http://%/?a&amp;b">#</a>']


def link(S, n, i):
    form = LINKS[i]
    u, t = S.text('u', 1, n, r"[^\"'&<>\s]"), S.text('t', 1, n, H)
    pre, post = S.choice('in', AROUND)
    h = form.replace('%', '\0').replace('#', '\1')
    a, b = h.split('\0')
    b, c = b.split('\1')
    url = 'http://' + u + '/?a&b' if i == 5 else u
    text = '//' + t + '//' if i == 4 else t
    is_(S, put(pre, a + u + b + t + c), put(post, '[[' + url + ('' if url == text else '|' + text) + ']]'))


def base(src):
    """what stands behind the last slash"""
    for i in range(len(src), 0, -1):
        if src[i - 1] == '/':
            return src[i:]
    return src


def pic(src, title, alt):
    return title if len(title) >= len(alt) and title != '' else alt if alt != '' else base(src)


def image(S, n, strict):
    src, title, alt = S.text('src', 1, n, r'[^"&<>\s:]'), S.text('title', 0, n, r'[^"&<>\s]'), S.text('alt', 0, n, r'[^"&<>\s]')
    form = S.choice('form', [0, 1, 2, 3])
    tag = ['<img src="' + src + '" title="' + title + '" alt="' + alt + '" />',
           '<img alt="' + alt + '" title="' + title + '" src="' + src + '">',
           '<IMG SRC="' + src + '" width="5" ALT="' + alt + '" TITLE="' + title + '"/>',
           '<img src="' + src + '"' + (' title="' + title + '"' if title != '' else '') + (' alt="' + alt + '"' if alt != '' else '') + ' height="7" class="x" />'][form]
    # a blank behind an unclosed <img> moves before it: recorded at C20
    pre, post = S.choice('in', AROUND if form != 1 else AROUND[:3] + AROUND[4:])
    is_(S, put(pre, tag), put(post, '{{' + src + '|' + pic(src, title, alt) + '}}'), strict=bool(strict))


def size(S, n, strict):
    """both width and height: known not to stand in the order creole2html reads"""
    w, h = S.text('w', 1, n, '[0-9%]'), S.text('h', 1, n, '[0-9%]')
    form = S.choice('form', ['<img src="i.png" alt="t" width="{w}" height="{h}" />', '<img height="{h}" src="i.png" width="{w}" alt="t">', '<img src="i.png" alt="t" width="{w}" />', '<img src="i.png" alt="t" height="{h}" />'])
    html = form.replace('{w}', w).replace('{h}', h)
    if strict or 'height' not in form or 'width' not in form:
        is_(S, html, '{{i.png|t}}', strict=bool(strict))
    else:
        out = conv(S, html, strict=False)
        # recorded: it writes height x width, exactly that (with w == h it is right)
        S.known('image-size-order', S.no(w == h) and out == '{{i.png|t|' + h + 'x' + w + '}}')
        S.check(out == '{{i.png|t|' + w + 'x' + h + '}}', 'width x height')


def data(S, n, strict):
    t = S.text('t', 0, n, r'[^"&<>\s]')
    u = S.text('u', 0, 1, H)
    is_(S, '<p>A<img src="data:' + t + '" alt="x" />' + u + '</p>', 'A' + u, 'data: images are dropped', strict=bool(strict))


BLOCKS = [('<p>%</p>', '%'), ('<hr />', '----'), ('<hr>', '----'), ('<h2>%</h2>', '== %'), ('<p>%<br />%</p>', '%\n%'), ('<p>%<br>\n%</p>', '%\n%'), ('<div>%</div>', '%'), ('<ul><li>%<br />%</li></ul>', '* %\\\\%'), ('<p>%\n%</p>', '% %'),
          ('<p>\n  %\t\n\n</p>', '%'), ('<pre>\n%\n</pre>', '{{{\n%\n}}}'), ('<ol><li>%</li><li>%</li></ol>', '# %\n# %'), ('<table><tr><th>%</th><th>%</th></tr></table>', '|= % |= % |'), ('<table><tr><td>%</td></tr></table>', '| % |')]


def blocks(S, n):
    a, b = S.choice('a', BLOCKS), S.choice('b', BLOCKS)
    sep = S.choice('sep', ['', '\n', '\n\n'])
    if 'pre' in a[0] + b[0]:
        sep = '\n\n'
    t, u = S.text('t', 1, n, W), S.text('u', 1, 1, W)
    out = conv(S, put(a[0], t) + sep + put(b[0], u))
    x, y = put(a[1], t), put(b[1], u)
    S.check(out[:len(x)] == x, 'the first block')
    S.check(out[len(out) - len(y):] == y, 'the second block')
    gap = out[len(x):len(out) - len(y)]
    S.check(gap == '\n\n' or 'pre' in a[0] or 'table' in a[0], 'the next block stands behind an empty line')
    S.check(S.matches('\n+', gap), 'the next block starts on its own line')


def pre(S, n):
    t = S.text('t', 0, n, r'[^<&\r]')
    form = S.choice('form', [('<pre>\n', '\n</pre>', '{{{\n', '\n}}}'), ('<p>a</p>\n<pre>\n', '\n</pre>\n<p>b</p>', 'a\n\n{{{\n', '\n}}}\nb'), ('<p>a <pre>', '</pre> b</p>', 'a {{{', '}}} b'), ('<ul><li><pre>', '</pre></li></ul>', '* {{{', '}}}')])
    is_(S, form[0] + t + form[1], form[2] + t + form[3], 'the content is verbatim')


def shape(S, n):
    """the bullets of each of n items"""
    out = []
    for i in range(n):
        k = S.int('k%d' % i, 1, min(3, len(out[-1]) + 1) if out else 1)
        c = S.choice('c%d' % i, '*#') if i == 0 or k > len(out[-1]) else None
        out.append(out[-1][:k] if c is None else (out[-1] if out else '') + c)
    return out


def lists(S, n, nest):
    """nested lists inside (0, 1) or beside (2) the item before, 1: with layout"""
    bul = shape(S, n)
    texts = [S.text('t%d' % i, 1, 1, W) for i in range(n)]
    nl = '\n\t' if nest == 1 else ''
    html, stack = '', []
    for b, t in zip(bul, texts):
        while len(stack) > len(b):
            html += ('' if nest == 2 else '</li>') + nl + '</' + stack.pop() + '>' + nl
        if len(stack) == len(b):
            html += ('' if nest == 2 else '</li>' + nl)
        else:
            stack.append({'*': 'ul', '#': 'ol'}[b[-1]])
            html += nl + '<' + stack[-1] + '>' + nl
        html += '<li>' + t + ('</li>' if nest == 2 else '')
    while stack:
        html += ('' if nest == 2 else '</li>') + nl + '</' + stack.pop() + '>' + nl
    exp = ''
    for b, t in zip(bul, texts):
        exp += '\n' + b + ' ' + t
    pre, post = S.choice('in', [('', ''), ('<p>x</p>', '<p>y</p>'), ('<p>x</p>\n\n', '\n\n<p>y</p>')])
    is_(S, pre + html + post, ('x\n\n' if 'x' in pre else '') + exp[1:] + ('\n\ny' if 'y' in post else ''))


ROUND = ['%', '% %', '%\n%', '= %', '== %', '====== %', '----', '* %', '* %\n* %', '* %\n** %\n* %', '# %\n## %\n### %', '* %\n*# %', '{{{\n%\n}}}', '|= % |= % |\n| %  | %  |', '| % |\n| % |', '**%** %', '[[%|x %]]']


def back(S, text, **kw):
    c = S.load('creole')
    html = c.creole2html(text)
    S.observe('html', html)
    out = c.html2creole(html)
    S.observe('out', out)
    S.check(out == text, 'the same text again')


def rounds(S, i, n):
    a, b = ROUND[i], S.choice('b', ROUND)
    t, u = S.text('t', n, n, WORD), S.text('u', 1, 1, WORD)
    end = '\n' if '{{{' in a or a[0] == '|' else '\n\n'
    if (a[0] in '*#' and a[:2] != '**') and (b[0] in '*#' and b[:2] != '**'):
        S.require(False)        # one list
    if a[0] == '|' and b[0] == '|':
        end = '\n\n'
    back(S, put(a, t) + end + put(b, u))


INL = ['**%**', '//%//', '##%##', '^^%^^', ',,%,,', '__%__', '--%--', '~~%~~', '{{{%}}}', '[[%]]', '[[%|x %]]', '{{%|%}}', '**//%//**', '//**%** %//', '[[%|**%**]]', '%']


def round_inline(S, n):
    x = S.choice('x', INL)
    pre, post = S.choice('in', [('', ''), ('a ', ' b'), ('a ', '\nb'), ('== ', ''), ('* a ', '\n* b'), ('# ', ' b'), ('| ', ' |'), ('|= a ', ' |'), ('a\n', '\n\nb')])
    if pre == '== ' and x != '%':
        S.require(False)        # no markup in headings
    t = S.text('t', 1, n, WORD)
    if pre == '' and x[0] == '#':
        S.require(False)
    back(S, pre + put(x, t) + post)


def round_list(S, n):
    bul = shape(S, n)
    out = ''
    for i, b in enumerate(bul):
        out += '\n' + b + ' ' + S.text('t%d' % i, 1, 1, WORD)
    back(S, out[1:])


def round_size(S, n):
    w, h = S.text('w', 1, n, '[1-9]'), S.text('h', 1, n, '[1-9]')
    c = S.load('creole')
    out = c.html2creole(c.creole2html('a {{i.png|t|' + w + 'x' + h + '}} b'))
    S.observe('out', out)
    S.known('image-size-order', S.no(w == h) and out == 'a {{i.png|t|' + h + 'x' + w + '}} b')
    S.check(out == 'a {{i.png|t|' + w + 'x' + h + '}} b', 'the same text again')
