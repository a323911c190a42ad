"""C26: rest2html writes clean, well nested HTML that holds exactly the text of the document."""
from harness import lib

BOUNDS = {
    'inline': 'every pair of 8 inline elements (nested or beside each other) with every text of up to 4 (quick) / 5 (thorough) characters; nested 2 / 3',
    'blocks': 'every pair of 23 block elements in the document, in a list item and in a block quote, with every text of 1 / up to 2 characters; each alone with 4 / 5 characters',
    'attributes': 'every target, alt text and size of up to 3 / 4 characters; every alignment',
    'start tag': 'every tag name and up to 2 attributes, names and values of up to 3 / 4 characters, empty or not',
    'sections': 'every sequence of up to 5 / 7 titles of levels 1 to 7',
    'environment': 'the document tree is built of docutils nodes (its ReST parser is outside); the HTML writer of docutils runs symbolically',
}
ANY = r'[^\s\ud800-\udfff\x00-\x1f\x7f]'
WORD = r'[^\s\ud800-\udfff\x00-\x1f\x7f&<>"@]'


def cases(tier):
    q = tier == 'quick'
    out = []
    for i in range(len(INLINE)):
        out.append(('inline-' + INLINE[i], 'inline', i, 4 if q else 5))
        out.append(('nested-' + INLINE[i], 'nested', i, 2 if q else 3))
    for i in range(len(BLOCK)):
        out.append(('block-' + BLOCK[i], 'block', i, 4 if q else 5))
        for p in range(len(PLACE)):
            out.append(('blocks-%s-%s' % (BLOCK[i], PLACE[p]), 'blocks', i, p, 1 if q else 2))
    for form in IMAGE:
        out.append(('image-' + form, 'image', form, 3 if q else 4))
    out.append(('link', 'link', 4 if q else 5))
    out.append(('tag', 'tag', 4 if q else 5))
    out.append(('attributes', 'attributes', 3 if q else 4))
    out.append(('sections', 'sections', 5 if q else 7))
    out.append(('literal', 'literal', 4 if q else 6))
    out.append(('cells', 'cells', 2 if q else 3))
    return out


# ---- documents
def nodes():
    import docutils.nodes
    return docutils.nodes


class Box:
    pass


def text_node(S, t):
    N = nodes()

    class Text(N.Node):
        """text that may be symbolic"""
        tagname = '#text'
        children = ()

        def astext(self):
            return t

        def __len__(self):
            return len(t)

        def __bool__(self):
            return True
    return Text()


def document(S, children):
    import docutils.frontend
    import docutils.utils
    from docutils.writers import html4css1
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        settings = docutils.frontend.OptionParser(components=(html4css1.Writer,)).get_default_values()
    settings.embed_stylesheet = False
    settings.stylesheet_path = None
    settings.stylesheet = None
    settings.file_insertion_enabled = False
    doc = docutils.utils.new_document('x', settings)
    for c in children:
        doc += c
    return doc


def html(S, children):
    """what rest2html() answers for a document"""
    M = S.load('creole.rest_tools.clean_writer')

    def publish_parts(source=None, writer=None, settings_overrides=None, enable_exit_status=None, **k):
        doc = document(S, children)
        visitor = writer.translator_class(doc)
        doc.walkabout(visitor)
        return {'html_body': ''.join(visitor.html_body)}
    with S.patched(M, publish_parts=publish_parts):
        r = M.rest2html('x')
    S.observe('html', r)
    return r


INLINE = ['text', 'emphasis', 'strong', 'subscript', 'superscript', 'title_reference', 'reference', 'literal']
TAG = {'emphasis': 'em', 'strong': 'strong', 'subscript': 'sub', 'superscript': 'sup', 'title_reference': 'cite'}


def inline_node(S, kind, t, inner=None):
    """-> (node, expected html)"""
    N = nodes()
    child = [text_node(S, t)] if inner is None else [text_node(S, t), inner[0]]
    x = esc(t) if inner is None else esc(t) + inner[1]
    if kind == 'text':
        return child[0], x
    if kind == 'reference':
        n = N.reference(refuri='http://h/')
        return fill(n, child), '<a href="http://h/">' + x + '</a>'
    if kind == 'literal':
        return literal_node(S, t), '<tt>' + esc(t) + '</tt>'
    return fill(getattr(N, kind)(), child), '<' + TAG[kind] + '>' + x + '</' + TAG[kind] + '>'


def literal_node(S, t):
    N = nodes()

    class literal(N.literal):
        def astext(self):
            return t
    return fill(literal(), [text_node(S, t)])


def fill(n, children):
    n['classes'] = ['k']
    n['ids'] = ['i']
    for c in children:
        n += c
    return n


def esc(t):
    return t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;').replace('@', '&#64;')


def para(S, t):
    p = nodes().paragraph()
    p += text_node(S, t)
    return p


# ---- reading the HTML
def clean(S, out):
    """the tokens: properly nested, no div, no class and no id"""
    stack = []
    for kind, name, text in S.tokens(out):
        S.check(kind != 'broken', 'no broken tag')
        if kind == 'text':
            continue
        S.check(name != 'div', 'no div')
        if kind == 'open':
            stack.append(name)
        if kind == 'close':
            S.check(len(stack) > 0 and stack[-1] == name, 'tags are properly nested')
            stack.pop()
        if kind != 'close':
            for bad in (' class=', ' id=', ' ids=', ' classes='):
                S.check(bad not in text.lower(), 'no class and no id')
    S.check(stack == [], 'tags are properly nested')


def layout(out):
    """without the line ends the writer puts between tags"""
    return out.replace('>\n', '>').replace('\n<', '<').strip('\n')


def judge(S, children, expected):
    out = html(S, children)
    clean(S, out)
    S.check(S.same(layout(out), layout(expected)), 'exactly the elements and the text of the document')


def inline(S, i, n):
    t = S.text('t', 1, n, ANY)
    node, x = inline_node(S, INLINE[i], t)
    judge(S, [fill(nodes().paragraph(), [text_node(S, 'A '), node, text_node(S, ' B')])], '<p>A ' + x + ' B</p>')


def nested(S, i, n):
    t, u = S.text('t', 1, n, WORD), S.text('u', 1, n, ANY)
    k = S.choice('k', [k for k in INLINE if k not in ('text', 'reference')])
    if INLINE[i] in ('text', 'literal') or S.bool('beside'):
        a, x = inline_node(S, INLINE[i], t)
        b, y = inline_node(S, k, u)
        children, x = [a, b], x + y
    else:
        a, x = inline_node(S, INLINE[i], t, inline_node(S, k, u))
        children = [a]
    judge(S, [fill(nodes().paragraph(), children)], '<p>' + x + '</p>')


BLOCK = ['paragraph', 'bullets', 'numbers', 'pre', 'quote', 'rule', 'table', 'fields', 'figure', 'definitions', 'image', 'note', 'container', 'lines', 'topic',
         'sidebar', 'compound', 'legend', 'rubric', 'attribution', 'doctest', 'caption', 'blank line']
PLACE = ['document', 'item', 'quote', 'section', 'note', 'container', 'legend', 'cell', 'definition', 'field']


def block_node(S, kind, t):
    """-> (nodes, expected html)"""
    N = nodes()
    e = esc(t)
    if kind == 'paragraph':
        return para(S, t), '<p>' + e + '</p>'
    if kind in ('bullets', 'numbers'):
        n = N.bullet_list() if kind == 'bullets' else N.enumerated_list(start=3, enumtype='arabic')
        items = [fill(N.list_item(), [para(S, t)]), fill(N.list_item(), [para(S, 'I')])]
        tag = 'ul' if kind == 'bullets' else 'ol'
        return fill(n, items), '<%s><li>\0</li><li>I</li></%s>'.replace('%s', tag).replace('\0', e)
    if kind == 'pre':
        return fill(N.literal_block(), [text_node(S, t)]), '<pre>' + e + '</pre>'
    if kind == 'quote':
        return fill(N.block_quote(), [para(S, t)]), '<p>' + e + '</p>'
    if kind == 'rule':
        return N.transition(), '<hr />'
    if kind == 'table':
        return table_node(S, [[t, 'C']]), '<table><colgroup><col width="50%" /><col width="50%" /></colgroup><tr><td>' + e + '</td><td>C</td></tr></table>'
    if kind == 'fields':
        f = fill(N.field(), [fill(N.field_name(), [text_node(S, 'F')]), fill(N.field_body(), [para(S, t)])])
        return fill(N.field_list(), [f]), '<table><tr><th>F:</th><td>' + e + '</td></tr></table>'
    if kind == 'figure':
        c = fill(N.caption(), [text_node(S, t)])
        return fill(N.figure(align='right'), [N.image(uri='a.png', alt='A'), c]), '<img alt="A" src="a.png" align="right" /><p>' + e + '</p>'
    if kind == 'definitions':
        d = fill(N.definition_list_item(), [fill(N.term(), [text_node(S, 'T')]), fill(N.definition(), [para(S, t)])])
        return fill(N.definition_list(), [d]), '<dl><dt>T</dt><dd>' + e + '</dd></dl>'
    if kind == 'image':
        return N.image(uri='a.png', alt=t, align='left'), '<img alt="' + e + '" src="a.png" align="left" />'
    if kind == 'note':
        return fill(N.admonition(), [fill(N.title(), [text_node(S, 'Note')]), para(S, t)]), '<p>Note</p><p>' + e + '</p>'
    if kind == 'container':
        return fill(N.container(), [para(S, t)]), '<p>' + e + '</p>'
    if kind == 'lines':
        return fill(N.line_block(), [fill(N.line(), [text_node(S, t)]), fill(N.line(), [text_node(S, 'L')])]), e + '<br />L<br />'
    if kind == 'topic':
        return fill(N.topic(), [fill(N.title(), [text_node(S, 'T')]), para(S, t)]), '<p>T</p><p>' + e + '</p>'
    if kind == 'sidebar':
        return fill(N.sidebar(), [fill(N.title(), [text_node(S, 'T')]), para(S, t)]), '<p>T</p><p>' + e + '</p>'
    if kind == 'compound':
        return fill(N.compound(), [para(S, t), para(S, 'C')]), '<p>' + e + '</p><p>C</p>'
    if kind == 'legend':
        c = fill(N.caption(), [text_node(S, 'C')])
        return fill(N.figure(), [N.image(uri='a.png', alt='A'), c, fill(N.legend(), [para(S, t)])]), '<img alt="A" src="a.png" /><p>C</p><p>' + e + '</p>'
    if kind == 'rubric':
        return fill(N.rubric(), [text_node(S, t)]), '<p>' + e + '</p>'
    if kind == 'attribution':
        return fill(N.block_quote(), [para(S, 'Q'), fill(N.attribution(), [text_node(S, t)])]), '<p>Q</p><p>&mdash;' + e + '</p>'
    if kind == 'doctest':
        return fill(N.doctest_block(), [text_node(S, t)]), '<pre>' + e + '</pre>'
    if kind == 'caption':
        n, x = block_node(S, 'table', 'B')
        n.insert(0, fill(N.title(), [text_node(S, t)]))
        return n, x.replace('<table>', '<table><caption>' + e + '</caption>')
    if kind == 'blank line':
        return fill(N.line_block(), [fill(N.line(), [text_node(S, t)]), fill(N.line(), []), fill(N.line(), [text_node(S, 'L')])]), e + '<br /><br />L<br />'


def table_node(S, rows, head=False):
    N = nodes()
    g = N.tgroup(cols=len(rows[0]))
    for c in rows[0]:
        g += N.colspec(colwidth=5)
    if head:
        g += fill(N.thead(), [row_node(S, rows[0])])
        rows = rows[1:]
    g += fill(N.tbody(), [row_node(S, r) for r in rows])
    return fill(N.table(), [g])


def row_node(S, cells):
    N = nodes()
    return fill(N.row(), [fill(N.entry(), [para(S, c)] if c != '' else []) for c in cells])


def block(S, i, n):
    node, x = block_node(S, BLOCK[i], S.text('t', 1, n, ANY))
    judge(S, [node], x)


def blocks(S, i, p, n):
    N = nodes()
    a, x = block_node(S, BLOCK[i], S.text('t', 1, n, WORD))
    k = S.choice('k', BLOCK)
    b, y = block_node(S, k, S.text('u', 1, n, ANY))
    if PLACE[p] == 'document':
        judge(S, [a, b], x + y)
    elif PLACE[p] == 'quote':
        judge(S, [para(S, 'P'), fill(N.block_quote(), [a, b]), para(S, 'Q')], '<p>P</p>' + x + y + '<p>Q</p>')
    elif PLACE[p] == 'section':
        judge(S, [fill(N.section(), [fill(N.title(), [text_node(S, 'H')]), a, b])], '<h1>H</h1>' + x + y)
    elif PLACE[p] in ('note', 'container'):
        judge(S, [fill(getattr(N, NODE[PLACE[p]])(), [fill(N.title(), [text_node(S, 'H')])][PLACE[p] == 'container':] + [a, b]), para(S, 'P')],
              ('<p>H</p>' if PLACE[p] == 'note' else '') + x + y + '<p>P</p>')
    elif PLACE[p] == 'legend':
        judge(S, [fill(N.figure(), [N.image(uri='a.png', alt='A'), fill(N.legend(), [a, b])])], '<img alt="A" src="a.png" />' + x + y)
    else:
        # a list directly behind the text makes the item compact
        n, exp = wrap(S, PLACE[p], [para(S, 'P'), a, b], '<p>P</p>' + x + y)
        out = html(S, [n, para(S, 'Q')])
        clean(S, out)
        S.check(S.same(plain(S, out), plain(S, exp + '<p>Q</p>')), 'all of the text in order')


NODE = {'note': 'admonition', 'container': 'container'}


def wrap(S, place, children, x):
    """elements that leave the <p> of a sole paragraph out"""
    N = nodes()
    if place == 'item':
        return fill(N.bullet_list(), [fill(N.list_item(), children)]), '<ul><li>' + x + '</li></ul>'
    if place == 'definition':
        d = fill(N.definition_list_item(), [fill(N.term(), [text_node(S, 'T')]), fill(N.definition(), children)])
        return fill(N.definition_list(), [d]), '<dl><dt>T</dt><dd>' + x + '</dd></dl>'
    if place == 'field':
        f = fill(N.field(), [fill(N.field_name(), [text_node(S, 'F')]), fill(N.field_body(), children)])
        return fill(N.field_list(), [f]), '<table><tr><th>F:</th><td>' + x + '</td></tr></table>'
    g = fill(N.tgroup(cols=1), [N.colspec(colwidth=5)])
    g += fill(N.tbody(), [fill(N.row(), [fill(N.entry(), children)])])
    return fill(N.table(), [g]), '<table><colgroup><col width="100%" /></colgroup><tr><td>' + x + '</td></tr></table>'


def plain(S, out):
    r = ''
    for kind, name, text in S.tokens(layout(out)):
        r += text if kind == 'text' else '\n' if name not in TAG.values() and name not in ('a', 'tt') else ''
    import re
    return re.sub('\n+', '\n', r)


IMAGE = ['plain', 'alt', 'size', 'align', 'figure', 'linked']


def image(S, form, n):
    N = nodes()
    uri = S.text('uri', 1, n, r'[a-z/%&"<\u0100]' if form not in ('alt', 'figure') else r'[a-z/%\u0100]') + '.png'
    if form == 'plain':
        judge(S, [N.image(uri=uri)], '<img alt="' + esc(uri) + '" src="' + esc(uri) + '" />')
    elif form == 'alt':
        alt = S.text('alt', 0, n, ANY)
        judge(S, [N.image(uri=uri, alt=alt)], '<img alt="' + esc(alt) + '" src="' + esc(uri) + '" />')
    elif form == 'size':
        w = S.text('w', 1, 3, '[0-9]')
        judge(S, [N.image(uri=uri, alt='A', width=w, height='3')], '<img alt="A" src="' + esc(uri) + '" style="width: ' + w + 'px; height: 3px;" />')
    elif form == 'align':
        a = S.choice('a', ['left', 'right', 'center', 'top', 'middle', 'bottom'])
        judge(S, [N.image(uri=uri, alt='A', align=a)], '<img alt="A" src="' + esc(uri) + '" align="' + a + '" />')
    elif form == 'figure':
        alt = S.text('alt', 1, n, ANY)
        f = fill(N.figure(align='right'), [N.image(uri=uri, alt=alt)])
        judge(S, [f, para(S, 'P')], '<img alt="' + esc(alt) + '" src="' + esc(uri) + '" align="right" /><p>P</p>')
    else:
        r = N.reference(refuri=uri)
        r += N.image(uri='a.png', alt='A')
        judge(S, [fill(N.paragraph(), [r])], '<p><a href="' + esc(uri) + '"><img alt="A" src="a.png" /></a></p>')


def link(S, n):
    N = nodes()
    uri = S.text('uri', 1, n, r'[^\ud800-\udfff\x00-\x20\x7f-\xa0]')
    r = fill(N.reference(refuri=uri), [text_node(S, 'X')])
    judge(S, [fill(N.paragraph(), [text_node(S, 'A '), r])], '<p>A <a href="' + esc(uri) + '">X</a></p>')


def translator(S):
    M = S.load('creole.rest_tools.clean_writer')
    return M.CleanHTMLTranslator(document(S, []))


def tag(S, n):
    """starttag(): any tag"""
    name = S.text('name', 1, n, '[a-z0-9]')
    empty = S.bool('empty')
    suffix = S.choice('suffix', ['', '\n'])
    k = {'empty': 1} if empty else {}
    out = translator(S).starttag({}, name, suffix, href='a"b', **k)
    if name == 'div':
        S.check(out == '', 'no div')
    else:
        S.check(S.same(out, '<' + name + ' href="a&quot;b"' + (' />' if empty else '>') + suffix), 'the start tag with its attributes')


def attributes(S, n):
    """starttag(): any attributes"""
    a, b = S.choice('a', ATTR), S.choice('b', ATTR)
    S.require(a < b)
    v, w = S.text('v', 0, n, ANY), S.choice('w', ['w', 7, ['p', 'q'], [], 0])
    k = {a: v, b: w}
    out = translator(S).starttag({}, 'td', '', **k)
    x = '<td'
    for name in sorted(k):
        val = k[name]
        if name.lower() in ('class', 'classes', 'ids', 'frame', 'rules', 'start'):
            continue
        if isinstance(val, list):
            val = ' '.join(val)
        elif isinstance(val, int):
            val = '%d' % val
        x += ' ' + name.lower() + '="' + esc(val) + '"'
    S.check(S.same(out, x + '>'), 'the attributes but class and ids')


ATTR = ['CLASS', 'align', 'class', 'classes', 'colspan', 'frame', 'href', 'rules', 'start', 'style', 'SRC', 'Class', 'ids', 'star', 'rule']


def sections(S, n):
    N = nodes()
    k = S.int('k', 1, n)
    stack = [(0, [])]
    top = []
    x = ''
    depth = 0
    path = []
    t = S.text('t', 1, 2, ANY)
    for i in range(k):
        level = S.int('l%d' % i, 1, 7)
        if level > depth + 1:
            S.require(level <= depth + 1 or i == 0 and level == 1)
        sec = fill(N.section(), [fill(N.title(), [text_node(S, t)]), para(S, 'P%d' % i)])
        del path[level - 1:]
        if path:
            path[-1] += sec
        else:
            top.append(sec)
        path.append(sec)
        depth = level
        h = 'h%d' % min(level, 6)
        x += '<' + h + '>' + esc(t) + '</' + h + '><p>P%d</p>' % i
    judge(S, top, x)


def literal(S, n):
    """literals keep their blanks and are not split"""
    t = S.text('t', 1, n, r'[^\ud800-\udfff\x00-\x1f\x7f-\xa0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000]')
    S.require(t[0] != ' ' and t[-1] != ' ')
    out = html(S, [fill(nodes().paragraph(), [literal_node(S, t)])])
    clean(S, out)
    S.check(out.startswith('<p><tt>') and out.strip('\n').endswith('</tt></p>'), 'the text is in tt')
    inner = out.strip('\n')[7:-9].replace('&nbsp;', ' ')
    S.check(S.same(inner, esc(t)), 'exactly the text of the literal')


def cells(S, n):
    """tables with and without head, with empty cells"""
    head = S.bool('head')
    rows = []
    x = '<table><colgroup><col width="50%" /><col width="50%" /></colgroup>'
    for r in range(S.choice('rows', [1, 2, 3])):
        row = [S.text('t%d' % r, 0, n if r < 2 else 0, WORD), S.choice('c%d' % r, ['', 'C'])]
        rows.append(row)
        tagname = 'th' if head and r == 0 else 'td'
        x += '<tr>' + ''.join(['<' + tagname + '>' + (c if c != '' else '&nbsp;') + '</' + tagname + '>' for c in row]) + '</tr>'
    S.require(len(rows) > 1 or not head)
    judge(S, [table_node(S, rows, head)], x + '</table>')
