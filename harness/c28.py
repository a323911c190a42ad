"""C28: the debug option prints and does nothing else; without it nothing is printed."""
from harness import lib

BOUNDS = {
    'creole': 'every text of up to 3 (quick) / 4 (thorough) Unicode characters, and of up to 1 (2) in 17 constructs, options and macros included',
    'html': 'every text of up to 1 (quick) / 2 (thorough) characters, references included, in 24 documents, to each of the four markups, '
            'with every way to handle unknown tags; also documents that are refused',
    'tree': 'the trees of both parsers before and after the debug methods, nodes with any level and attributes',
}

CREOLE = ['$', '= $\n== b', '* a$\n** $', '|=a|$|\n|b', '{{{\n$\n}}}', 'a {{{$}}} b', '[[a|$]] {{b$|c|1x2}}', 'http://a$ b', '**a$//b', '<<m k="$">> a', '<<m>>$<</m>>', '<<m>>\n$\n<</m>>',
          '<<toc>>\n= $', '* $\nb', '** a$\\\\\n{{b}}\nc', '[[$]] ~http://a {{b$}}', 'a\n$\n\nb\\\\c', '<<bad>>$<</bad>> <<nope>>']
HTML = ['<p>a $</p>', '<h1>$</h1>', '<ul><li>$<ol><li>b</li></ol></li></ul>', '<table><tr><th>$</th><td>b</td></tr></table>', '<pre>a\n$</pre>', 'a <tt>$</tt> b', '<a href="b$">a</a>', '<a>$</a>',
        '<img src="$" alt="b" width="1" height="2" />', '<foo k="$">a$</foo>', '<foo $ />', 'a<br />$<hr />', '<p>&$;</p>', '&#$;a', '<!-- $ -->a', '</b>$<b>', '<code class="language-$">a</code>',
        '<pre><code>$</code></pre>', '<dl><dt>$</dt><dd>b</dd></dl>', '<del>$</del><sup>a</sup>', '<html><head><title>$</title></head><body>a</body></html>', '<blockquote>$</blockquote>', '<td>$', '<data>$</data>']
URLS = (6, 8)           # ASCII only: percent-encoding is not modelled for all of Unicode
REFUSED = ['<p><a href="a">$</a> <a href="b">$</a></p>', '<p><img src="a" alt="$" /><img src="b" alt="$" /></p>']
MARKUPS = ['creole', 'rest', 'textile', 'markdown']
POLICIES = [None, 'raise_unknown_node', 'use_html_macro', 'preformat_unknown_nodes', 'escape_unknown_nodes', 'transparent_unknown_nodes']
CHARS = r'[a-zA-Z0-9<>&;#"/=*|{}~\n \u0660\xe9\ud800-\udfff\U00010000-\U0001ffff]'


def cases(tier):
    q = tier == 'quick'
    out = []
    for i in range(len(CREOLE)):
        out.append(('creole-%02d' % i, 'creole', (3 if q else 4) if i == 0 else (1 if q else 2), i))
    for i in range(len(HTML)):
        out.append(('html-%02d' % i, 'html', 1 if q else 2, i))
    for i in range(len(REFUSED)):
        out.append(('refused-%02d' % i, 'refused', i))
    out.append(('tree-html', 'tree_html'))
    out.append(('tree-creole', 'tree_creole'))
    out.append(('node', 'node'))
    return out


def macro(text=None, **kwargs):
    return '(%s)' % text


def bad(text=None):
    raise ValueError('bad')


def outcome(f):
    """the result, or the kind of exception"""
    try:
        return f()
    except Exception as err:
        return (type(err).__name__,)


def both(S, f):
    a, printed = S.printed(lambda: outcome(lambda: f(False)))
    S.observe('result', a)
    S.check(not printed, 'nothing is printed without debug')
    b, printed = S.printed(lambda: outcome(lambda: f(True)))
    S.observe('with debug', b)
    S.check(type(a) is type(b) or (isinstance(a, str) and isinstance(b, str)), 'debug does not change whether there is a result')
    S.check(a == b, 'debug does not change the result')


def creole(S, n, i):
    c = S.load('creole')
    x = S.text('x', 0 if i == 0 else 1, n, None if i == 0 else CHARS)
    src = x.join(CREOLE[i].split('$'))
    kw = S.choice('kw', [{}, {'blog_line_breaks': False, 'strict': True}])
    both(S, lambda d: c.creole2html(src, debug=d, macros={'m': macro, 'bad': bad}, verbose=0, **kw))


def html(S, n, i):
    c = S.load('creole')
    f = getattr(c, 'html2' + S.choice('to', MARKUPS))
    p = S.choice('unknown', POLICIES if '<foo' in HTML[i] or '<data' in HTML[i] else POLICIES[:1])
    emit = p and getattr(S.load('creole.shared.unknown_tags'), p)
    x = S.text('x', 1, n, CHARS[:CHARS.index(r'\u0660')] + ']' if i in URLS else CHARS)
    src = x.join(HTML[i].split('$'))
    both(S, lambda d: f(src, debug=d, unknown_emit=emit))


def refused(S, i):
    c = S.load('creole')
    x = S.text('x', 1, 1, lib.WORDC)
    f = getattr(c, 'html2' + S.choice('to', MARKUPS))
    both(S, lambda d: f(x.join(REFUSED[i].split('$')), debug=d))


def shape(node):
    return (node.kind, node.content, node.level, sorted(node.attrs), [shape(k) for k in node.children])


def tree_html(S):
    c = S.load('creole')
    x = S.text('x', 1, 1, CHARS)
    src = x.join(S.choice('t', HTML).split('$'))
    a, printed = S.printed(lambda: shape(c.parse_html(src)))
    S.observe('tree', a)
    S.check(not printed, 'nothing is printed without debug')
    b, _ = S.printed(lambda: shape(c.parse_html(src, debug=True)))
    S.check(a == b, 'the tree is the same')
    P = S.load('creole.parser.html_parser').HtmlParser
    p = P()
    t = p.feed(src)
    _, printed = S.printed(lambda: p.debug())
    S.check(printed, 'debug() shows the tree')
    S.printed(lambda: [k.debug() for k in t.children])
    S.printed(lambda: p.debug(t))
    S.check(shape(t) == a, 'showing the tree does not change it')


def tree_creole(S):
    x = S.text('x', 1, 1, CHARS)
    src = x.join(S.choice('t', CREOLE).split('$'))
    P = S.load('creole.parser.creol2html_parser').CreoleParser
    t, printed = S.printed(lambda: P(src).parse())
    S.check(not printed, 'nothing is printed without debug')
    a = shape(t)
    S.observe('tree', a)
    b, _ = S.printed(lambda: shape(P(src, debug=True).parse()))
    S.check(a == b, 'the tree is the same')
    p = P(src)
    t = p.parse()
    _, printed = S.printed(lambda: p.debug_tree())
    S.check(printed, 'debug_tree() shows the tree')
    S.printed(lambda: t.debug())
    S.check(shape(t) == a, 'showing the tree does not change it')


def node(S):
    N = S.load('creole.shared.document_tree').DocNode
    x = S.text('x', 0, 2, CHARS)
    level = S.choice('level', [None, 0, 1, 7])
    root = N('document')
    n = N('a', root, x, S.choice('attrs', [{}, {'k': 'v', 'l': None}]), level)
    N('b', n)
    before = shape(root)
    _, printed = S.printed(lambda: (root.debug(), n.debug()))
    S.check(printed, 'debug() shows the node')
    S.check(shape(root) == before and n.parent is root and n.content == (x or n.content), 'showing a node does not change it')
