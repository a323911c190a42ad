"""C18: html2textile and html2markdown map each element to its markup."""
import posixpath

from harness import lib
from harness.c15 import base

BOUNDS = {
    'inline': 'every typeface element of each markup, alone and pairwise nested, in 8 surroundings, every text of up to 3 (quick) / 5 (thorough) characters but "<", "&" and white space',
    'head': 'heading levels 1 to 6, every text of up to 4 / 6 characters, in 5 places',
    'link': 'every target, title and text of up to 2 / 3 characters in 6 forms of the tag',
    'image': 'every src, alt and title of up to 2 / 3 characters, present or not, data: sources',
    'target': 'every target of a link or image of up to 6 / 8 characters that need no quoting',
    'precode': 'pre with a code element of every language and content of up to 2 / 3 characters',
    'quote': 'quote_link with every path of one character and of up to 2 / 3 of 70 characters, some up to U+FFEE, every query and fragment of up to 2 characters, in 5 forms of URLs; parameters of up to 2 / 3 characters',
    'list': 'every list of up to 4 / 5 items down to level 3 of either kind, nested inside and beside the item, in 4 places',
    'item': 'items with 8 forms of content',
    'block': 'every pair of 10 blocks, rules, line breaks, pre with every content of up to 3 / 5 characters',
}
H = r'[^\s<&]'
# two backslashes are a line break in Creole; the ends of list items are rid of them
HI = r'[^\s<&\\]'
W = '[^&' + lib.PLAIN[2:]
WI = W[:-1] + r'\\]'
TEXTILE = {'strong': '*', 'b': '**', 'big': '*', 'i': '__', 'em': '_', 'sup': '^', 'sub': '~', 'del': '-', 'cite': '??', 'ins': '+', 'span': '%', 'code': '@', 'EM': '_', 'u': '', 'small': ''}
MARKDOWN = {'strong': '**', 'b': '**', 'big': '**', 'i': '_', 'em': '_', 'tt': '##', 'sup': '<sup>', 'sub': '<sub>', 'u': '__', 'small': '--', 'del': '~~', 'strike': '~~', 'code': '`', 'span': '', 'EM': '_'}
FACES = [TEXTILE, MARKDOWN]
CONV = ['html2textile', 'html2markdown']


def cases(tier):
    q = tier == 'quick'
    out = []
    for c in range(2):
        m = CONV[c][5:]
        for i in range(len(AROUND)):
            out.append(('%s-inline-%d' % (m, i), 'inline', c, i, 3 if q else 5))
            if i < 5:
                out.append(('%s-nested-%d' % (m, i), 'nested', c, i, 1 if q else 2))
        out.append((m + '-two', 'two', c, 1 if q else 2))
        out.append((m + '-head', 'head', c, 4 if q else 6))
        for i in range(len(LINKS)):
            out.append(('%s-link-%d' % (m, i), 'link', c, 2 if q else 3, i))
        out.append((m + '-image', 'image', c, 2 if q else 3))
        out.append((m + '-src', 'src', c, 6 if q else 8))
        out.append((m + '-href', 'href', c, 6 if q else 8))
        out.append((m + '-precode', 'precode', c, 2 if q else 3))
        out.append((m + '-data', 'data', c, 3 if q else 5))
        for n in range(1, 5 if q else 6):
            for nest in range(3):
                out.append(('%s-list-%d-%d' % (m, n, nest), 'lists', c, n, nest))
        out.append((m + '-item', 'item', c, 2 if q else 3))
        out.append((m + '-blocks', 'blocks', c, 1 if q else 2))
        out.append((m + '-pre', 'pre', c, 3 if q else 5))
    for i in range(len(URLS)):
        out.append(('quote-char-%d' % i, 'quote', i, 1))
        out.append(('quote-%d' % i, 'quote', i, 2 if q else 3))
    out.append(('quote-wide', 'quote_wide', 2 if q else 3))
    out.append(('quote-params', 'quote_params', 2 if q else 3))
    out.append(('quote-free', 'quote_free', 3 if q else 4))
    return out


def conv(S, c, html):
    out = getattr(S.load('creole'), CONV[c])(html)
    S.observe('out', out)
    return out


def is_(S, c, html, exp, what='exactly its markup'):
    S.check(conv(S, c, html) == exp, what)


AROUND = [('%', '%', '%'), ('<p>%</p>', '%', '%'), ('<p>a %</p>', 'a %', 'a %'), ('<p>% b</p>\n\n<p>c</p>', '% b\n\nc', '% b\n\nc'), ('<h2>%</h2>', 'h2. %', '## %'), ('<ul>\n\t<li>%</li>\n\t<li>b</li>\n</ul>', '* %\n* b', '* %\n* b'),
          ('a <b>b</b> %<br />\nc', 'a **b** %\nc', 'a **b** %\nc'), ('<div>%</div>b', '%\n\nb', '%\n\nb')]


def put(form, x):
    return x.join(form.split('%'))


def mark(S, c, tag, t):
    m = FACES[c][tag]
    if m == '`':
        for ch in t:
            if ch == '`':
                return '``' + t + '``'
    if m[:1] == '<':
        return m + t + '</' + m[1:]
    return m + t + m


def inline(S, c, i, n):
    a = AROUND[i]
    tag = S.choice('tag', list(FACES[c]))
    t = S.text('t', 1, n, HI if i == 5 else H)
    if S.bool('attr'):
        is_(S, c, put(a[0], '<' + tag + ' class="x">' + t + '</' + tag + '>'), put(a[1 + c], mark(S, c, tag, t)))
    else:
        is_(S, c, put(a[0], '<' + tag + '>' + t + '</' + tag + '>'), put(a[1 + c], mark(S, c, tag, t)))


def nested(S, c, i, n):
    a = AROUND[i]
    face = [x for x in FACES[c] if x not in ('code', 'EM')]
    x, y = S.choice('a', face), S.choice('b', face)
    t, u, v = S.text('t', 0, n, WI if i == 5 else W), S.text('u', 1, n, WI if i == 5 else W), S.text('v', 0, n, WI if i == 5 else W)
    is_(S, c, put(a[0], '<%s>' % x + t + '<%s>' % y + u + '</%s>' % y + v + '</%s>' % x), put(a[1 + c], mark(S, c, x, t + mark(S, c, y, u) + v)))


def two(S, c, n):
    """blanks between inline elements stay"""
    face = [x for x in FACES[c] if x not in ('code', 'EM')]
    x, y = S.choice('a', face), S.choice('b', face)
    t, u = S.text('t', 1, n, W), S.text('u', 1, n, W)
    sep = S.choice('sep', ['', ' ', '\n', ' A ', ' <a name="x">B</a> '])
    shown = ' ' if sep == '\n' else sep.replace('<a name="x">', '').replace('</a>', '')
    pre, post = S.choice('in', [('<p>', '</p>'), ('', ''), ('<ul><li>', '</li></ul>'), ('<p><b>', '</b></p>'), ('<div>', '</div>')])
    m = {'<p>': '%', '': '%', '<ul><li>': '* %', '<p><b>': '**%**', '<div>': '%'}[pre]
    x_ = mark(S, c, x, t) + shown + mark(S, c, y, u)
    is_(S, c, pre + '<%s>' % x + t + '</%s>' % x + sep + '<%s>' % y + u + '</%s>' % y + post, put(m, x_))


def head(S, c, n):
    k = S.int('level', 1, 6)
    t = S.text('t', 1, n, H)
    tag = S.choice('tag', ['h%d', 'H%d']) % k
    pre, post = S.choice('in', [('', ''), ('<p>a</p>\n', '\n\n<p>b</p>'), ('<p>a</p>', '<p>b</p>'), ('<div>', '</div>'), ('a\n', '\nb'), ('<h1>a</h1>', '<h2>b</h2>')])
    m = '#' * k + ' ' + t if c else 'h%d. ' % k + t
    h1, h2 = ('# a', '## b') if c else ('h1. a', 'h2. b')
    is_(S, c, pre + '<' + tag + '>' + t + '</' + tag + '>' + post, ('' if 'a' not in pre else (h1 if 'h' in pre else 'a') + '\n\n') + m + ('' if 'b' not in post else '\n\n' + (h2 if 'h' in post else 'b')))


LINKS = ['<a href="%">#</a>', "<a href='%'>#</a>", '<a title="@" href="%" class="y">#</a>', '<A HREF="%">#</A>', '<a href="%"><em>#</em></a>', '<a href="http://%/?a&amp;b">#</a>', '<a name="%">#</a>', '<a>#</a>']
# a path that needs no quoting
P = r'[A-Za-z0-9_.~/-]'


def link(S, c, n, i):
    form = LINKS[i]
    # a textile link takes its target as it is; in Markdown the path would be quoted: see quote
    u, t = S.text('u', 1, n, P if c else r"[^\"'&<>\s]"), S.text('t', 1, n, H)
    w = S.text('w', 0, n, r'[^"&<>\s]') if '@' in form else ''
    a = S.choice('in', AROUND)
    if c:
        # an empty name of the host
        S.require(u[:1] != '/' if i == 5 else u[:2] != '//')
    html = fill(form, u, w, t)
    url = 'http://' + u + '/?a&b' if i == 5 else u
    text = '_' + t + '_' if i == 4 else t
    if 'href' not in form.lower():
        m = text
    elif c:
        m = '[' + text + '](' + url + (' "' + w + '"' if w != '' else '') + ')'
    else:
        m = '"' + text + '":' + url
    is_(S, c, put(a[0], html), put(a[1 + c], m))


def fill(form, u, w, t):
    out = ''
    for ch in form:
        out += u if ch == '%' else w if ch == '@' else t if ch == '#' else ch
    return out


def image(S, c, n):
    src, title, alt = S.text('src', 1, n, P if c else r'[^"&<>\s:]'), S.text('title', 0, n, r'[^"&<>\s]'), S.text('alt', 0, n, r'[^"&<>\s]')
    if c:
        S.require(src[:2] != '//')
    form = S.choice('form', [0, 1, 2, 3])
    tag = ['<img src="' + src + '" title="' + title + '" alt="' + alt + '" />',
           '<img alt="' + alt + '" title="' + title + '" src="' + src + '"/>',
           '<IMG SRC="' + src + '" width="5" ALT="' + alt + '" TITLE="' + title + '"/>',
           '<img src="' + src + '"' + (' title="' + title + '"' if title != '' else '') + (' alt="' + alt + '"' if alt != '' else '') + ' height="7" class="x" />'][form]
    a = S.choice('in', AROUND)
    if c:
        m = '![' + alt + '](' + src + (' "' + title + '"' if title != '' and alt != '' else '') + ')'
    else:
        m = '!' + src + '(' + (alt if len(alt) > len(title) else title if title != '' else base(src)) + ')!'
    is_(S, c, put(a[0], tag), put(a[1 + c], m))


def src(S, c, n):
    """every name of a file"""
    u = S.text('u', 1, n, r'[A-Za-z0-9_.~-]')
    form = S.choice('form', ['<p>A <img src="%" alt="x" /></p>', '<IMG ALT="x" SRC="%">'])
    is_(S, c, put(form, u), ('A ' if form[:2] == '<p' else '') + ('![x](' + u + ')' if c else '!' + u + '(x)!'))


def href(S, c, n):
    u = S.text('u', 1, n, r'[A-Za-z0-9_.~-]')
    form = S.choice('form', ['<p>A <a href="%">x</a></p>', '<A HREF="%">x</A>'])
    is_(S, c, put(form, u), ('A ' if form[:2] == '<p' else '') + ('[x](' + u + ')' if c else '"x":' + u))


def precode(S, c, n):
    """pre with code in it: Markdown shows its language and content, Textile leaves it to HTML"""
    t = S.text('t', 0, n, r'[^<&\r]')
    lang = S.text('lang', 0, n, r'[A-Za-z0-9+-]') if c else 'x'
    S.require(S.no(S.has(t[:1], r'\s')) or S.no('\n' in t))
    form = S.choice('form', [' class="language-%"', '', ' class="%"', ' id="a" class="language-%"'])
    html = put('<pre><code' + form + '>', lang) + t + '</code></pre>'
    if c:
        exp = '```' + (lang if 'language' in form else '') + t + '```'
    else:
        exp = html
    is_(S, c, '<p>A</p>' + html + '<p>B</p>', 'A\n\n' + exp + '\n\nB', 'the content with its language')


def data(S, c, n):
    """a picture in the document itself: dropped in Textile, kept in Markdown"""
    t = S.text('t', 0, n, P)
    u = S.text('u', 0, 1, H)
    S.require(t[:2] != '//')
    is_(S, c, '<p>A<img src="data:' + t + '" alt="x" />' + u + '</p>', 'A' + ('![x](data:' + t + ')' if c else '') + u)


# prefix, suffix; the path between; whether a query and fragment follow
URLS = ['', '/', 'http://a.b/', 'a/', 'https://a:8/x/']
SAFE = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~/%'


def enc(S, t):
    """UTF-8 bytes of a character up to U+FFFF but those a path may have, in hexadecimal"""
    out = ''
    for ch in t:
        if S.has(ch, r'[A-Za-z0-9_.~/%-]'):
            out += ch
        else:
            k = ord(ch)
            if k < 128:
                bs = [k]
            elif k < 2048:
                bs = [192 + k // 64, 128 + k % 64]
            else:
                bs = [224 + k // 4096, 128 + k // 64 % 64, 128 + k % 64]
            for b in bs:
                out += '%' + '0123456789ABCDEF'[b // 16] + '0123456789ABCDEF'[b % 16]
    return out


def quote(S, i, n):
    Q = S.load('creole.emitter.html2markdown_emitter')
    t = S.text('t', 0, n, r'[ !"$-.0-9<=>@-Z\[-\]^_`a-~]' if n == 1 else r'[ "(.0-9%A-Za-z~]')
    if i < 2:
        # no scheme and host
        S.require(S.no(S.has(t[:1], r'[/ ]')))
    if i == 0:
        S.require(S.no(':' in t))
    tail = S.choice('tail', ['', '?q', '#f', '?q#f', '?', '#'])
    q = S.text('q', 1, 2, r'[^#\s\x00-\x20]') if 'q' in tail else ''
    f = S.text('f', 1, 2, r'[^\s\x00-\x20]') if 'f' in tail else ''
    S.require(S.no(S.has(t[-1:], r' ')) or tail != '')
    out = Q.quote_link(URLS[i] + t + ('?' + q if 'q' in tail else '') + ('#' + f if 'f' in tail else ''))
    S.observe('out', out)
    S.check(out == URLS[i] + enc(S, t) + ('?' + q if 'q' in tail else '') + ('#' + f if 'f' in tail else ''), 'the path is quoted, the query and fragment are as they were')


def quote_wide(S, n):
    Q = S.load('creole.emitter.html2markdown_emitter')
    t = S.choice('t', ['\xe4', '\xff', '\u0100', '\u07ff', '\u0800', '\u20ac', '\uffee', '\xa0', '\x80'])
    u = S.text('u', 0, n, r'[a-z %"()]')
    v = S.text('v', 1, 1, r'[a-z]')
    out = Q.quote_link('http://a.b/' + u + t + v + '?' + t + u + v)
    S.check(out == 'http://a.b/' + enc(S, u + t) + v + '?' + t + u + v, 'UTF-8')


def quote_params(S, n):
    """the parameters of the last name in the path stay, too"""
    Q = S.load('creole.emitter.html2markdown_emitter')
    i = S.int('i', 0, len(URLS) - 1)
    t, p = S.text('t', 1, n, r'[ a-z0-9~"]'), S.text('p', 1, n, r'[a-z0-9=,;.]')
    S.require(S.no(S.has(t[:1], ' ')))
    S.require(p[:1] != ';')
    tail = S.choice('tail', ['', '?q', '#f'])
    out = Q.quote_link(URLS[i] + t + ';' + p + tail)
    S.observe('out', out)
    S.check(out == URLS[i] + enc(S, t) + ';' + p + tail, 'the parameters are as they were')


def quote_free(S, n):
    """whatever it is, nothing unsafe is left in what stands before the query, and it does not fail"""
    Q = S.load('creole.emitter.html2markdown_emitter')
    t = S.text('t', 0, n, r'[ a/:?#%()\[\]"@;]')
    # an empty name of the host is left out
    S.require(S.no('//' in t))
    out = Q.quote_link(t)
    S.observe('out', out)
    S.check(Q.quote_link(out) == out, 'what is quoted is not quoted again')


def shape(S, n):
    """(level, kind) of each of n items"""
    out, stack = [], []
    for i in range(n):
        k = S.int('k%d' % i, 1, min(3, out[-1][0] + 1) if out else 1)
        stack = stack[:k]
        if len(stack) < k:
            stack.append(S.choice('c%d' % i, ['ul', 'ol']))
        out.append((k, list(stack)))
    return out


def lists(S, c, n, nest):
    """nested lists inside (0, 1) or beside (2) the item before, 1: with layout"""
    items = shape(S, n)
    texts = [S.text('t%d' % i, 1, 1, W) for i in range(n)]
    nl = '\n\t' if nest == 1 else ''
    html, stack, exp = '', [], ''
    for (k, kinds), t in zip(items, texts):
        while len(stack) > k:
            html += ('' if nest == 2 else '</li>') + nl + '</' + stack.pop() + '>' + nl
        if len(stack) == k:
            html += '' if nest == 2 else '</li>' + nl
        else:
            stack.append(kinds[-1])
            html += nl + '<' + stack[-1] + '>' + nl
        html += '<li>' + t + ('</li>' if nest == 2 else '')
        if c:
            exp += '\n' + '  ' * (k - 1) + ('1. ' if kinds[-1] == 'ol' else '* ') + t
        else:
            exp += '\n' + ''.join(['#' if x == 'ol' else '*' for x in kinds]) + ' ' + t
    while stack:
        html += ('' if nest == 2 else '</li>') + nl + '</' + stack.pop() + '>' + nl
    pre, post = S.choice('in', [('', ''), ('<p>x</p>', '<p>y</p>'), ('<p>x</p>\n\n', '\n\n<p>y</p>'), ('x', 'y'), ('<h1>x</h1>', '<h2>y</h2>')])
    out = conv(S, c, pre + html + post)
    h1, h2 = ('# x', '## y') if c else ('h1. x', 'h2. y')
    head = '' if 'x' not in pre else h1 if 'h' in pre else 'x'
    tail = '' if 'y' not in post else h2 if 'h' in post else 'y'
    S.check(out[:len(head)] == head and out[len(out) - len(tail):] == tail, 'what stands around the list')
    out = out[len(head):len(out) - len(tail)]
    S.check(out.strip('\n') == exp[1:], 'each item on its line with the marker of its level')
    S.check((head == '' or out[:2] == '\n\n') and (tail == '' or out[len(out) - 2:] == '\n\n'), 'empty lines around a list')


ITEMS = [('%', '%', '%'), ('%<br />A', '%\nA', '%\n$A'), ('<p>%</p>', '%', '%'), ('<p>%</p><p>A</p>', '%\nA', '%\n\n$A'), ('%<p>A</p>B', '%\nA\nB', '%\n\n$A\n\n$B'), ('<b>%</b> <i>A</i>', '**%** __A__', '**%** _A_'), ('%\nA', '% A', '% A'),
         ('<a href="%">%</a>', '"%":%', '[%](%)'), ('', '', '')]
FORMS = [('<ul><li>A</li><li>%</li><li>B</li></ul>', '* A\n* %\n* B', '* A\n* %\n* B', '  '), ('<ol>\n<li>%</li>\n<li>B</li></ol>', '# %\n# B', '1. %\n1. B', '  '),
         ('<ol><li>A<ul><li>%</li><li>C</li></ul></li><li>B</li></ol>', '# A\n#* %\n#* C\n# B', '1. A\n  * %\n  * C\n1. B', '    '), ('<ul><li>%<ol><li>A</li></ol></li><li>B</li></ul>', '* %\n*# A\n* B', '* %\n  1. A\n* B', '  ')]


def item(S, c, n):
    it, form = S.choice('item', ITEMS), S.choice('form', FORMS)
    t = S.text('t', 1, n, P[:-3] + '-]')
    S.require(S.no('/' in t))
    is_(S, c, put(form[0], put(it[0], t)), put(form[1 + c], put(it[1 + c].replace('$', form[3]), t)), 'everything stays in its item')


BLOCKS = [('<p>%</p>', '%', '%'), ('<hr />', '----', '----'), ('<hr>', '----', '----'), ('<h2>%</h2>', 'h2. %', '## %'), ('<p>%<br />%</p>', '%\n%', '%\n%'), ('<div>%</div>', '%', '%'), ('<div><p>%</p><p>b</p></div>', '%\n\nb', '%\n\nb'), ('<p>%\n%</p>', '% %', '% %'),
          ('<p>\n  %\t\n\n</p>', '%', '%'), ('<ul><li>%</li></ul>', '* %', '* %'), ('<table><tr><td>%</td></tr></table>', '|%|', '| % |'), ('%', '%', '%')]


def blocks(S, c, n):
    a, b = S.choice('a', BLOCKS), S.choice('b', BLOCKS)
    sep = S.choice('sep', ['', '\n', '\n\n'])
    if a[0] == b[0] == '%':
        return S.check(True, 'one text line')
    t, u = S.text('t', 1, n, W), S.text('u', 1, 1, W)
    pre, post = S.choice('in', [('', ''), ('<div>', '</div>')])
    out = conv(S, c, pre + put(a[0], t) + sep + put(b[0], u) + post)
    x, y = put(a[1 + c], t), put(b[1 + c], u)
    S.check(out[:len(x)] == x, 'the first block')
    S.check(out[len(out) - len(y):] == y, 'the second block')
    S.check(S.matches('\n\n+', out[len(x):len(out) - len(y)]), 'the next block stands behind an empty line')


def pre(S, c, n):
    t = S.text('t', 0, n, r'[^<&\r]')
    o, e = ('```', '```') if c else ('<pre>', '</pre>')
    form = S.choice('form', [('<pre>\n', '\n</pre>', o + '\n', '\n' + e), ('<p>a</p>\n<pre>\n', '\n</pre>\n<p>b</p>', 'a\n' + ('' if c else '\n') + o + '\n', '\n' + e + ('\n' if not c else '\n\n') + 'b'),
                             ('<pre>', '</pre>', o, e)])
    if form[0] == '<pre>':
        # blanks behind the tag are layout, where the line ends there
        S.require(S.no(S.has(t[:1], r'\s')))
    is_(S, c, form[0] + t + form[1], form[2] + t + form[3], 'the content is verbatim')
