"""C17: html2rest emits structurally valid reStructuredText."""
from harness.wide import WIDE

BOUNDS = {
    'head': 'heading levels 1 to 9, every text of up to 3 (quick) / 4 (thorough) characters, wide ones and blanks included, in 7 forms and 7 places',
    'list': 'every list of up to 4 / 5 items down to level 3 of either kind, nested inside and beside the item, with text behind the nested list, in 7 places',
    'item': 'items with texts, line breaks, paragraphs, pre blocks, links and images in 3 kinds of lists',
    'pre': 'preformatted blocks with every content of up to 4 / 6 characters',
    'refs': 'every sequence of up to 3 links and images with texts and targets of one character in 6 places, texts differing in case included',
    'targets': 'two links or images of one name, up to 2 characters, with every pair of targets of up to 4 / 6 characters',
    'place': 'every pair of 9 blocks, and text, next to each other, in the document and in a div',
}
C = r'[^\s<&|=_*#\\+:.`-]'
L = r'[A-Za-z0-9]'


def cases(tier):
    q = tier == 'quick'
    out = []
    for i in range(len(HEADS)):
        out.append(('head-%d' % i, 'head', 3 if q else 4, i))
    out.append(('head-wide', 'head_wide', 2 if q else 3))
    out.append(('head-empty', 'head_empty', 2 if q else 3))
    for n in range(1, 5 if q else 6):
        for nest in range(4):
            out.append(('list-%d-%d' % (n, nest), 'lists', n, nest))
    for i in range(len(ITEMS)):
        out.append(('item-%d' % i, 'item', i, 2 if q else 3))
    for i in range(len(PRES)):
        out.append(('pre-%d' % i, 'pre', i, 4 if q else 6))
    for n in range(1, 4):
        for i in range(len(WHERE)):
            out.append(('refs-%d-%d' % (n, i), 'refs', n, i, q))
    for i in range(3):
        out.append(('targets-%d' % i, 'targets', i, 4 if q else 6))
    out.append(('place', 'place', 1 if q else 2))
    return out


def conv(S, html):
    out = S.load('creole').html2rest(html)
    S.observe('out', out)
    return out


def is_(S, html, blocks, what):
    """the blocks, with an empty line between two of them"""
    S.check(conv(S, html) == '\n\n'.join(blocks).rstrip(), what)


def columns(S, t):
    n = 0
    for c in t:
        n += 2 if S.has(c, WIDE) else 1
    return n


def title(S, k, t):
    """as docutils wants it: an adornment line of one character is no adornment above a title"""
    w = columns(S, t)
    if k < 3:
        line = '=-'[k - 1] * max(w, 2)
        return line + '\n' + t + '\n' + line
    return t + '\n' + "=-`'"[min(k, 6) - 3] * w


AROUND = [('', ''), ('<p>A</p>', '<p>B</p>'), ('<p>A</p>\n\n', '\n\n<p>B</p>'), ('A', 'B'), ('A\n', '\nB'), ('<div>A</div>', '<div>B</div>'), ('A <b>B</b><br />', '<b>B</b>')]


def around(pre, post):
    a = [] if pre == '' else ['A **B**' if 'b' in pre else 'A']
    return a, [] if post == '' else ['**B**' if '<b>' in post else 'B']


HEADS = [('%', '%'), ('%<br />A', '% A'), ('%\nA', '% A'), ('<b>%</b>', '**%**'), ('A%&amp;', 'A%&'), ('<a name="x">%</a>', '%'), (' %\n', '%')]


def head(S, n, i):
    # the parser does not know h7 and so on as blocks
    k = S.int('level', 1, 6 if i else 9)
    t = S.text('t', 1, 1, C)
    if n > 1:
        u = S.text('u', 0, n - 2, C)
        t = t + u + S.choice('sep', ['', ' ', '-']) + S.text('v', 1, 1, C)
    pre, post = S.choice('in', AROUND if k < 7 else AROUND[:2])
    a, b = around(pre, post)
    h, m = HEADS[i]
    tag = 'h%d' % k
    is_(S, pre + '<' + tag + '>' + h.replace('%', t) + '</' + tag + '>' + post, a + [title(S, k, m.replace('%', t))] + b, 'the title between lines as long as it is')


def head_wide(S, n):
    k = S.int('level', 1, 6)
    t = S.text('t', 1, n, WIDE)
    u = S.text('u', 0, 1, C)
    is_(S, '<h%d>' % k + t + u + '</h%d>' % k, [title(S, k, t + u)], 'lines as wide as the title')


def head_empty(S, n):
    k = S.int('level', 1, 6)
    t = S.text('t', 0, n, r'[ \n\t]')
    is_(S, '<p>A</p><h%d>' % k + t + '</h%d><p>B</p>' % k, ['A', 'B'], 'no lines without a title')


def shape(S, n):
    """(level, kind) of each of n items"""
    out, stack = [], []
    for i in range(n):
        k = S.int('k%d' % i, 1, min(3, out[-1][0] + 1) if out else 1)
        stack = stack[:k]
        if len(stack) < k:
            stack.append(S.choice('c%d' % i, ['ul', 'ol']))
        out.append((k, stack[-1]))
    return out


MARK = {'ul': '*', 'ol': '#.'}


def lists(S, n, nest):
    """nested lists inside (0, 1) or beside (2) the item before, 1: with layout, 3: inside, text follows"""
    items = shape(S, n)
    texts = [S.text('t%d' % i, 1, 1, C) for i in range(n)]
    nl = '\n\t' if nest == 1 else ''
    html, stack, blocks = '', [], []

    def end():
        """the nested list ends"""
        html = ('' if nest == 2 else '</li>') + nl + '</' + stack.pop()[1] + '>' + nl
        if nest == 3 and stack:
            html += 'Z'
            k, kind = stack[-1]
            blocks.append('    ' * (k - 1) + ' ' * (len(MARK[kind]) + 1) + 'Z')
        return html
    for (k, kind), t in zip(items, texts):
        while len(stack) > k:
            html += end()
        if len(stack) == k:
            html += '' if nest == 2 else '</li>' + nl
        else:
            stack.append((k, kind))
            html += nl + '<' + kind + '>' + nl
        html += '<li>' + t + ('</li>' if nest == 2 else '')
        blocks.append('    ' * (k - 1) + MARK[kind] + ' ' + t)
    while stack:
        html += end()
    pre, post = S.choice('in', AROUND)
    a, b = around(pre, post)
    is_(S, pre + html + post, a + blocks + b, 'each item at its indentation, between empty lines')


# the content of an item and its lines
ITEMS = [('%', '%'), ('%<br />A', '%\nA'), ('<p>%</p>', '%'), ('<p>%</p><p>A</p>', '%\n\nA'), ('%<p>A</p>', '%\n\nA'), ('<p>%</p>\n<p>A<br>%</p>B', '%\n\nA\n%\n\nB'), ('%\nA', '% A'),
         ('A <a href="%">%</a>', 'A `% <%>`_'), ('<img src="%" alt="x" />', '|x|'), ('', ''), ('<b>%</b> <i>%</i>', '**%** *%*'), ('<div>%</div>A', '%\n\nA'), ('%<div>A<p>%</p></div>', '%\n\nA\n\n%')]
FORMS = [('<ul><li>A</li><li>%</li><li>B</li></ul>', ['* A', '* %', '* B'], 2), ('<ol>\n<li>%</li>\n<li>B</li></ol>', ['#. %', '#. B'], 3), ('<ol><li>A<ul><li>%</li><li>C</li></ul></li><li>B</li></ol>', ['#. A', '    * %', '    * C', '#. B'], 6),
         ('<ul><li>%<ol><li>A</li></ol></li><li>B</li></ul>', ['* %', '    #. A', '* B'], 2), ('<ul><li>A<ol><li>B<ul><li>%</li></ul></li></ol></li></ul>', ['* A', '    #. B', '        * %'], 10)]


def item(S, i, n):
    h, m = ITEMS[i]
    t = S.text('t', 1, n, C[:2] + '"\'<>' + C[2:])
    h, m = h.replace('%', t), m.replace('%', t)
    # without a text the nested list stands in the same line
    html, blocks, ind = S.choice('form', FORMS if h != '' else FORMS[:3] + FORMS[4:])
    lines = '\n'.join([('' if j == 0 else ' ' * ind if line != '' else '') + line for j, line in enumerate(m.split('\n'))])
    blocks = [b.replace('%', lines) for b in blocks]
    is_(S, html.replace('%', h), blocks + (['.. |x| image:: ' + t] if '<img' in ITEMS[i][0] else []), 'all lines of an item at its indentation')


PRES = [('<pre>\n', '\n</pre>', [], []), ('<p>A</p>\n<pre>\n', '\n</pre>\n<p>B</p>', ['A'], ['B']), ('A\n<pre>\n', '\n</pre>\nB', ['A'], ['B']), ('<h1>AA</h1>\n<pre>\n', '\n</pre>\n<ul><li>B</li></ul>', ['==\nAA\n=='], ['* B'])]


def pre(S, i, n):
    """every line of the content, verbatim behind four blanks"""
    t = S.text('t', 0, n, r'[^<&\r]')
    h, e, a, b = PRES[i]
    out = conv(S, h + t + e)
    lines = t.split('\n')
    while lines and S.matches(r'\s*', lines[0]):
        lines = lines[1:]
    while lines and S.matches(r'\s*', lines[-1]):
        lines = lines[:-1]
    if not lines:
        S.check(out == '\n\n'.join(a + b), 'no literal block without content')
        return
    want = ['\n\n'.join(a + ['::'])] + [''] + [('    ' + line) for line in lines] + ([''] + b if b else [])
    got = out.split('\n')
    S.check(len(got) >= len('\n'.join(a).split('\n')), 'the document')
    # blanks at the ends of lines do not show
    if a:
        pre_ = '\n\n'.join(a) + '\n\n'
        S.check(out[:len(pre_)] == pre_, 'what stands before the block')
        out = out[len(pre_):]
    if b:
        post = '\n\n' + b[0]
        S.check(out[len(out) - len(post):] == post, 'what stands behind the block')
        out = out[:len(out) - len(post)]
    got = out.split('\n')
    S.check(got[0] == '::' and got[1] == '', 'a literal block starts')
    got = got[2:]
    S.check(len(got) == len(lines), 'all lines')
    for g, line in zip(got, lines):
        S.check(S.matches(r'\s*', g) if S.matches(r'\s*', line) else g == '    ' + line or g == ('    ' + line).rstrip(), 'each line indented by four blanks, and nothing else changed')


# block html, rst, in a table?
WHERE = [('<p>A %</p>', 'A %', 0), ('<table><tr><td>%</td></tr></table>', None, 1), ('<ul><li>%</li></ul>', '* %', 0), ('<h3>A %</h3>', 'h', 0), ('A %', 'A %', 0), ('<div>A %</div>', 'A %', 0)]


def refs(S, n, first, q):
    """what a reader of the document so far knows: the targets of the names"""
    links, images = [], []
    html, blocks, defs = '', [], []
    wrong = False
    for i in range(n):
        where = WHERE[first] if i == 0 else S.choice('w%d' % i, WHERE[:2] if n == 3 and q else WHERE[:5])
        is_img = S.bool('img%d' % i)
        t, u = S.text('t%d' % i, 1, 1, L), S.text('u%d' % i, 1, 1, L)
        bold = not is_img and i == 0 and S.bool('bold')
        if is_img:
            h = S.choice('tag', ['<img src="', '<img class="y" src="']) + u + '" alt="' + t + '" />' if i == 0 else '<img src="' + u + '" alt="' + t + '" />'
        else:
            h = '<a href="' + u + '">' + ('<i>' + t + '</i>' if bold else t) + '</a>'
        name = '*' + t + '*' if bold else t
        known = None
        for j in range(len(images if is_img else links)):
            o = (images if is_img else links)[j]
            if o[0].lower() == name.lower():
                known = o
                break
        if known is not None and S.no(known[1] == u):
            wrong = True
        new = []
        if is_img:
            r = '|' + name + '|'
            if known is None:
                images.append((name, u))
                new.append('.. |' + name + '| image:: ' + u)
        elif known is not None:
            r = '`' + name + '`_'
        else:
            links.append((name, u))
            if where[2]:
                r = '`' + name + '`_'
                new.append('.. _' + name + ': ' + u)
            else:
                r = '`' + name + ' <' + u + '>`_'
        # a text block in the document takes up the one before
        html += ('<hr />' if i and where[0] == 'A %' else '') + where[0].replace('%', h)
        if defs and not (where[0] == 'A %' and i == 0):
            blocks.append('\n'.join(defs))
            defs = []
        if i and where[0] == 'A %':
            blocks.append('----')
        if where[1] is None:
            line = '+' + '-' * (len(r) + 2) + '+'
            blocks.append(line + '\n| ' + r + ' |\n' + line)
        elif where[1] == 'h':
            blocks.append('A ' + r + '\n' + '=' * (len(r) + 2))
        else:
            blocks.append(where[1].replace('%', r))
        defs += new
    if defs:
        blocks.append('\n'.join(defs))
    H = S.load('creole.emitter.html2rest_emitter')
    try:
        out = S.load('creole').html2rest(html)
    except H.Html2restException:
        S.check(wrong, 'an error only for a name with two targets')
        return
    S.observe('out', out)
    S.check(not wrong, 'an error for a name with two targets')
    S.check(out == '\n\n'.join(blocks), 'every target is defined once, behind its block')


def targets(S, i, n):
    """one name with two targets"""
    t = S.text('t', 1, 2, L)
    u = S.text('u', 1, n, r'[A-Za-z0-9/.?#_:-]')
    v = S.text('v', 1, n, r'[A-Za-z0-9/.?#_:-]')
    if i == 2:
        S.require(S.no(S.matches('data:[^\n]*', u)))
        S.require(S.no(S.matches('data:[^\n]*', v)))
    form = ['<a href="%">#</a>', '<table><tr><td><a href="%">#</a></td></tr></table>', '<img src="%" alt="#" />'][i]
    html = ''
    for x in (u, v):
        for ch in '<p>' + form + '</p>' if i != 1 else form:
            html += x if ch == '%' else t if ch == '#' else ch
    H = S.load('creole.emitter.html2rest_emitter')
    try:
        out = S.load('creole').html2rest(html)
    except H.Html2restException:
        S.check(S.no(u == v), 'an error only for a name with two targets')
        return
    S.observe('out', out)
    S.check(u == v, 'an error for a name with two targets')
    if i == 0:
        S.check(out == '`' + t + ' <' + u + '>`_\n\n`' + t + '`_', 'the second link goes to the target of the first')
    elif i == 1:
        S.check('\n\n.. _' + t + ': ' + u + '\n\n' in out, 'the target of both')
    else:
        S.check(out == '|' + t + '|\n\n.. |' + t + '| image:: ' + u + '\n\n|' + t + '|', 'the source of both')


BLOCKS = [('<p>%</p>', '%'), ('<h3>%</h3>', '%\n='), ('<ul><li>%</li></ul>', '* %'), ('<ol><li>%</li></ol>', '#. %'), ('<hr />', '----'), ('<hr>', '----'), ('<table><tr><td>%</td></tr></table>', '+---+\n| % |\n+---+'), ('<div>%</div>', '%'), ('%', '%'),
          ('<b>%</b>', '**%**')]


def place(S, n):
    a, b = S.choice('a', BLOCKS), S.choice('b', BLOCKS)
    if a[0][-2:] not in ('v>', 'p>', '/>', 'l>', 'e>', '3>', 'r>') and b[0][:2] not in ('<p', '<h', '<u', '<o', '<t', '<d'):
        return S.check(True, 'one text line')
    t, u = S.text('t', 1, 1, r'[A-Za-z]'), S.text('u', 1, 1, r'[A-Za-z]')
    sep = S.choice('sep', ['', '\n', '\n\n'])
    out = [a[1].replace('%', t), b[1].replace('%', u)]
    pre, post = S.choice('in', [('', ''), ('<div>', '</div>')])
    is_(S, pre + a[0].replace('%', t) + sep + b[0].replace('%', u) + post, out, 'an empty line between two blocks')
