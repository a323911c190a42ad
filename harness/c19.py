"""C19: the chosen policy decides about unknown HTML tags."""
from harness import lib

BOUNDS = {
    'name': 'every tag name of up to 6 (quick) / 8 (thorough) letters, digits, colons, dots and dashes that no markup knows, 16 others, upper and lower case',
    'attributes': 'up to 2 attributes in every order with every value of up to 2 / 3 characters, quoted in 3 ways or without value',
    'content': '9 forms of content with every text of up to 2 / 3 characters, in 8 places, nested unknown elements',
    'handlers': 'all five handlers and the default, all four markups; elements known in one markup only',
}
MARKUPS = ['html2creole', 'html2rest', 'html2textile', 'html2markdown']
STRONG = ['**', '**', '*', '**']
EM = ['//', '*', '_', '_']
HANDLERS = ['transparent_unknown_nodes', 'escape_unknown_nodes', 'use_html_macro', 'preformat_unknown_nodes', None]
T = '[^&' + lib.PLAIN[2:-1] + '`_+.?@%!"()\']'
# names no markup may take for one of its elements
KNOWN = 'a|b|p|form|hr|code|span|cite|small|strike|strong|table|th|tbody|center|style|script|title|textarea|address|fieldset|isindex|blockquote|noscript|noframes|i|u|p|em|tt|br|hr|ul|ol|li|tr|th|td|h[0-9]|sub|sup|del|img|ins|div|big|dir|dl|men|pre|xmp'
NAMES = ['x', 'unknown', 'foo-bar', 'svg:rect', 'BLINK', 'data', 'charref', 'document', 'headline', 'list', 'entityref', 'blockdata_pre', 'inlinedata', 'abbr', 'label', 'q']
# elements without a counterpart in this markup, but in another
FOREIGN = [['ins', 'cite'], ['u', 'strike', 'sub', 'sup', 'del', 'cite', 'ins'], ['tt', 'u', 'small', 'strike'], ['ins', 'cite']]


def cases(tier):
    q = tier == 'quick'
    out = []
    for c in range(4):
        m = MARKUPS[c][5:]
        for h in range(len(HANDLERS)):
            out.append(('%s-%d-name' % (m, h), 'name', c, h, 6 if q else 8))
            out.append(('%s-%d-attr' % (m, h), 'attr', c, h, 2 if q else 3))
            out.append(('%s-%d-attrs' % (m, h), 'attrs', c, h, 1))
            out.append(('%s-%d-content' % (m, h), 'content', c, h, 1 if q else 2))
            out.append(('%s-%d-blank' % (m, h), 'blank', c, h, 1 if q else 3))
            out.append(('%s-%d-nested' % (m, h), 'nested', c, h, 1))
            out.append(('%s-%d-foreign' % (m, h), 'foreign', c, h, 2 if q else 3))
        out.append((m + '-raise', 'raises', c, 1 if q else 2))
        out.append((m + '-raise-name', 'raise_name', c, 6 if q else 8))
        out.append((m + '-block', 'block', c, 1 if q else 2))
        out.append((m + '-known', 'known', c, 1))
    return out


def conv(S, c, h, html):
    kw = {}
    if h is not None:
        kw['unknown_emit'] = getattr(S.load('creole.shared.unknown_tags'), h)
    out = getattr(S.load('creole'), MARKUPS[c])(html, **kw)
    S.observe('out', out)
    return out


def shown(h, name, attrs, content):
    """what stands for the element; attrs: the text of its attributes, with a blank before each"""
    name = name.lower()
    if h is None or h.startswith('transparent'):
        return content
    if h.startswith('escape'):
        e = lambda x: '&lt;' + lib.esc(x) + '&gt;'
    else:
        k = 'html' if 'html' in h else 'pre'
        e = lambda x: '<<' + k + '>><' + x + '><</' + k + '>>'
    if content == '':
        return e(name + attrs + ' /')
    return e(name + attrs) + content + e('/' + name)


AROUND = [('%', '%'), ('<p>a %</p>', 'a %'), ('<p>a % b</p>', 'a % b'), ('a%b', 'a%b'), ('<ul><li>%</li></ul>', '* %'), ('<p><i>a % b</i></p>', None), ('<p>%</p>\n<p>b</p>', '%\n\nb'), ('<p>a<br />%</p>', 'a\n%')]


def around(S, c, all_=True):
    a = S.choice('in', AROUND)
    i = {0: '//', 1: '*', 2: '__', 3: '_'}[c]
    return a[0], a[1] or i + 'a % b' + i


def put(form, x):
    return x.join(form.split('%'))


def name(S, c, h, n):
    h = HANDLERS[h]
    t = S.text('name', 1, n, '[a-zA-Z0-9:._-]')
    S.require(S.has(t[:1], '[a-zA-Z]'))
    S.require(S.no(S.matches(KNOWN, t.lower())))
    # the elements whose content is no HTML
    u = S.text('t', 0, 1, T)
    html, exp = S.choice('in', AROUND[:3])
    src = '<' + t + ' />' if u == '' and S.bool('single') else '<' + t + '>' + u + '</' + t + '>'
    S.check(conv(S, c, h, put(html, src)).strip() == put(exp, shown(h, t, '', u)).strip(), 'the tag is shown as the handler says')


FORMS = [(' k="%"', '"'), (" k='%'", "'"), (' k=%', '"\'=`'), (' K="%"', '"'), (' k = "%"', '"')]


def attr(S, c, h, n):
    """the value of an attribute"""
    h = HANDLERS[h]
    form, no = S.choice('form', FORMS)
    v = S.text('v', 1, n, r'[^<>&\s' + no + ']')
    if form == ' k=%':
        # a slash ends the tag
        S.require(S.no(v[-1:] == '/'))
    t = S.choice('t', ['', 'A'])
    extra = S.choice('amp', ['', '&amp;', '&quot;', '&lt;', '&#65;'])
    real = {'': '', '&amp;': '&', '&quot;': '"', '&lt;': '<', '&#65;': 'A'}[extra]
    tag = S.choice('tag', ['x', 'unknown'])
    self_ = t == '' and S.bool('single')
    html, exp = S.choice('in', AROUND[:3])
    src = '<' + tag + put(form, extra + v) + (' />' if self_ else '>' + t + '</' + tag + '>')
    S.check(conv(S, c, h, put(html, src)).strip() == put(exp, shown(h, tag, ' k="' + lib.attr(real + v) + '"', t)).strip(), 'the attribute is shown with its value')


def attrs(S, c, h, n):
    """attributes come sorted"""
    h = HANDLERS[h]
    names = S.choice('names', [('a', 'b'), ('b', 'a'), ('href', 'class'), ('data-x', 'x:y')])
    v, w = S.text('v', 0, n, r'[^<>&\s"]'), S.text('w', 0, n, r'[^<>&\s"]')
    bare = S.choice('bare', ['', ' disabled', ' y'])
    src = ' %s="' % names[0] + v + '" %s="' % names[1] + w + '"' + bare
    a = [(names[0], names[0] + '="' + lib.attr(v) + '"'), (names[1], names[1] + '="' + lib.attr(w) + '"')]
    if bare:
        a.append((bare[1:], bare[1:]))
    shown_ = ''.join([' ' + x for _, x in sorted(a, key=lambda x: x[0])])
    tag = S.choice('tag', NAMES)
    S.check(conv(S, c, h, '<p><' + tag + src + '>A</' + tag + '> B</p>') == shown(h, tag, shown_, 'A') + ' B', 'all attributes are shown')


# content, what it is
CONTENT = [('%', '%'), ('', ''), ('<strong>%</strong>', 's%s'), ('A <em>%</em> B', 'A e%e B'), ('%<br />B', None), ('%&gt;A', '%>A'), ('% A', '% A'), ('%\nA', '% A'), ('<span class="y">%</span>', None)]


def content(S, c, h, n):
    h = HANDLERS[h]
    src, exp = S.choice('content', CONTENT)
    html, form = around(S, c)
    t = S.text('t', 1, n, T)
    if src.startswith('<span'):
        exp = '%'
    elif exp is None:
        # a line break, as the markup has it there
        transparent = h is None or h.startswith('transparent')
        lists = 'li' in html
        if lists and c in (1, 3):
            exp = '%\n  B'
        elif lists and c == 2:
            exp = '%\nB'
        elif c == 0 and (lists or transparent):
            exp = '%\\\\B'
        else:
            exp = '%\nB'
    m = put(exp.replace('s', STRONG[c]).replace('e', EM[c]), t)
    if c == 2 and src.startswith('<span'):
        m = '%' + t + '%'
    tag = S.choice('tag', ['x', 'unknown', 'abbr'])
    S.check(conv(S, c, h, put(html, '<' + tag + ' k="v">' + put(src, t) + '</' + tag + '>')).strip() == put(form, shown(h, tag, ' k="v"', m)).strip(), 'the content is converted as usual')


BLANK = [('&nbsp;', ' '), ('&#32;', ' '), ('&#160;', '\xa0'), ('&nbsp;%', ' %'), ('%&nbsp;', '% '), ('&#32;%&#32;', ' % '), ('%&nbsp;B', '% B'), ('<strong>%</strong>&nbsp;', 's%s '), ('&nbsp;<strong>%</strong>', ' s%s')]


def blank(S, c, h, n):
    """blanks in an element, at its ends too, belong to its content"""
    h = HANDLERS[h]
    src, exp = S.choice('content', BLANK)
    html, form = S.choice('in', [('<p>A!B</p>', 'A!B'), ('A! B', 'A! B'), ('<ul><li>A!B</li></ul>', '* A!B'), ('<p>A</p><p>B!C</p>', 'A\n\nB!C'), ('<table><tr><td>A!B</td></tr></table>', None)])
    if form is None:
        form = ['| A!B |', None, '|A!B|', None][c]
        S.require(form is not None)
    t = S.text('t', 1, n, T)
    tag, attrs = S.choice('tag', [('x', ''), ('unknown', ' k="v"'), ('abbr', '')] + ([('span', '')] if h is None and c != 2 else []))
    m = put(exp.replace('s', STRONG[c]), t)
    S.check(conv(S, c, h, ('<' + tag + attrs + '>' + put(src, t) + '</' + tag + '>').join(html.split('!'))) == shown(h, tag, attrs, m).join(form.split('!')), 'blanks stay')


def nested(S, c, h, n):
    h = HANDLERS[h]
    x, y, z = S.choice('x', NAMES[:6]), S.choice('y', NAMES[:12]), S.choice('z', ['strong', 'x', ''])
    t, u, v = S.text('t', 0, n, T), S.text('u', 1, n, T), S.text('v', 0, n, T)
    src, exp = u, u
    if z == 'strong':
        src, exp = '<strong>' + u + '</strong>', STRONG[c] + u + STRONG[c]
    elif z == 'x':
        src, exp = '<x />' + u, shown(h, 'x', '', '') + u
    src = '<' + x + '>' + t + '<' + y + ' k="v">' + src + '</' + y + '>' + v + '</' + x + '>'
    S.check(conv(S, c, h, '<p>A ' + src + ' B</p>') == 'A ' + shown(h, x, '', t + shown(h, y, ' k="v"', exp) + v) + ' B', 'each unknown element is shown as the handler says')


def foreign(S, c, h, n):
    """an element other markups know"""
    h = HANDLERS[h]
    tag = S.choice('tag', FOREIGN[c])
    t = S.text('t', 1, n, T)
    html, exp = S.choice('in', AROUND[:4])
    S.check(conv(S, c, h, put(html, '<' + tag + '>' + t + '</' + tag + '>')) == put(exp, shown(h, tag, '', t)), 'an element of another markup is unknown')


def raises(S, c, n):
    tag = S.choice('tag', NAMES + FOREIGN[c] + ['form', 'center', 'section'])
    html, _ = around(S, c)
    t = S.text('t', 0, n, T)
    src = S.choice('src', ['<%s>!</%s>', '<%s k="v">!</%s>', '<b><%s>!</%s></b>', '<div><p>A</p><%s>!</%s></div>', '<table><tr><td><%s>!</%s></td></tr></table>', '<%s />!', '<ul><li>!<%s></%s></li></ul>'])
    src = t.join(src.replace('%s', tag).split('!'))
    try:
        conv(S, c, 'raise_unknown_node', put(html, src))
    except NotImplementedError:
        return S.check(True, 'NotImplementedError for an unknown element')
    S.fail('no error for an unknown element')


def raise_name(S, c, n):
    """an element of every name is refused, also without any content"""
    t = S.text('name', 1, n, '[a-zA-Z0-9:._-]')
    S.require(S.has(t[:1], '[a-zA-Z]'))
    S.require(S.no(S.matches(KNOWN, t.lower())))
    src = S.choice('src', ['<%s />', '<%s></%s>', '<p>A <%s></%s></p>', '<p><%s>A</%s> B</p>'])
    try:
        conv(S, c, 'raise_unknown_node', t.join(src.split('%s')))
    except NotImplementedError:
        return S.check(True, 'NotImplementedError for an unknown element')
    S.fail('no error for an unknown element')


BLOCK = [('<p>%</p>', '%', '%', '%', '%'), ('<h2>%</h2>', '== %', None, 'h2. %', '## %'), ('<ul><li>%</li><li>B</li></ul>', '* %\n* B', '* %\n\n* B', '* %\n* B', '* %\n* B'), ('<hr />', '----', '----', '----', '----'),
         ('<p>%</p><p>A</p>', '%\n\nA', '%\n\nA', '%\n\nA', '%\n\nA'), ('<table><tr><td>%</td></tr></table>', '| % |', None, '|%|', '| % |'), ('%', '%', '%', '%', '%'), ('<pre>\n%\n C\n</pre>', '{{{\n%\n C\n}}}', None, '<pre>\n%\n C\n</pre>', '```\n%\n C\n```')]


def block(S, c, n):
    """blocks in a transparent element are the same blocks"""
    tag = S.choice('tag', ['section', 'article', 'form', 'x', 'blockquote', 'center'])
    a, b = S.choice('a', [x for x in BLOCK if x[1 + c]]), S.choice('b', BLOCK[:3])
    if b[1 + c] is None:
        b = BLOCK[0]
    t, u = S.text('t', 1, n, T), S.text('u', 1, 1, T)
    where = S.choice('in', ['%', '<p>D</p>%', '%<p>E</p>', '<div>%</div>', '<x>%</x>'])
    out = conv(S, c, S.choice('h', [None, 'transparent_unknown_nodes']), put(where, '<' + tag + '>' + '\n' * S.int('nl', 0, 1) + put(a[0], t) + put(b[0], u) + '</' + tag + '>'))
    x, y = put(a[1 + c], t), put(b[1 + c], u)
    if 'D' in where:
        S.check(out[:3] == 'D\n\n', 'the paragraph before it')
        # a blank where the tag was
        out = out[3:].lstrip('\n ')
    if 'E' in where:
        S.check(out[len(out) - 3:] == '\n\nE', 'the paragraph behind it')
        out = out[:len(out) - 3].rstrip('\n')
    S.check(out[:len(x)] == x, 'the first block')
    S.check(out[len(out) - len(y):] == y, 'the second block')
    # a table or a nowiki block ends with its line
    S.check(S.matches('\n\n+' if '<t' not in a[0] and '<pre' not in a[0] else '\n+', out[len(x):len(out) - len(y)]), 'the next block stands behind an empty line')


def known(S, c, n):
    """no handler has a part in what is known"""
    t = S.text('t', 1, n, T)
    src = S.choice('src', ['<p>%</p>', '<strong>%</strong>', '<em>%</em> <b>A</b>', '<h2>%</h2>', '<ul><li>%<ol><li>A</li></ol></li></ul>', '<a href="A">%</a>', '<img src="u" alt="%" />', '<table><tr><th>%</th><td>A</td></tr></table>', '<pre>%</pre>', 'A<br />%<hr>', '<div>%<span>A</span></div>',
                           '<sub>%</sub><sup>%</sup><del>A</del>' if c != 1 else '<big>%</big>', '<code>%</code>', '<table><tbody><tr><td>%</td></tr></tbody></table>', 'A<br>%</br>', '&amp;%&#65;&auml;'])
    out = conv(S, c, None, put(src, t))
    S.check(t in out, 'the text is shown')
    for h in HANDLERS[:4] + ['raise_unknown_node']:
        S.check(conv(S, c, h, put(src, t)) == out, 'known elements do not depend on the handler')
