"""Shared by the harnesses: escaping as the properties state it, and readers of the produced HTML."""

# every Unicode scalar value
ANY = r'[\s\S]'
# characters that mean nothing in Creole, anywhere in a line (quotes and ampersand included)
PLAIN = r'[^\s*/#^,_~=|\\\[\]{}<>:-]'
WORDC = r'[a-zA-Z0-9]'
# anything that may stand inside a line
LINE = r'[^\n\r]'

INLINE = {'**': 'strong', '//': 'i', '##': 'tt', '^^': 'sup', ',,': 'sub', '__': 'u', '--': 'small', '~~': 'del'}

TAGS = 'p|strong|i|tt|sup|sub|u|small|del|ul|ol|li|table|tr|td|th|pre|code|hr|br|h[0-9]+|a|img'
ATTR = '([^<>&"]|&(amp|lt|gt|quot);)*'
TAG_RE = '</?(%s)( (href|name|src|title|alt|width|height)="%s")*( ?/)?>' % (TAGS, ATTR)
TEXT_RE = '([^<>&]|&(amp|lt|gt|quot);)*'

VOID = ('br', 'hr', 'img')
PARENTS = {'li': ('ul', 'ol'), 'tr': ('table',), 'td': ('tr',), 'th': ('tr',)}


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def attr(s):
    return esc(s).replace('"', '&quot;')


def check_safe(S, html):
    """only known tags with known attributes; everything else escaped"""
    for kind, name, t in S.tokens(html):
        if kind == 'text':
            S.check(S.matches(TEXT_RE, t), 'text with an unescaped <, > or &')
        elif kind == 'broken':
            S.fail('an unescaped < in text')
        else:
            S.check(S.matches(TAG_RE, t), 'a tag or attribute the converter does not emit')
    S.check(True, 'every piece of the document was read')


def check_nesting(S, html):
    stack = []
    for kind, name, t in S.tokens(html):
        if kind == 'text':
            continue
        if kind == 'broken':
            S.fail('a tag is not closed by >')
        elif kind == 'empty':
            S.check(name in VOID, 'only void elements are self-closed')
        elif kind == 'open':
            S.check(name not in VOID, 'void element %s is self-closed' % name)
            if name in PARENTS:
                S.check(len(stack) > 0 and stack[-1] in PARENTS[name], '<%s> stands in its container' % name)
            if name == 'p':
                S.check('p' not in stack, 'no <p> inside <p>')
            if name == 'a':
                S.check('a' not in stack, 'no link inside a link')
            stack.append(name)
        else:
            S.check(len(stack) > 0 and stack[-1] == name, '</%s> closes the innermost open element' % name)
            stack.pop()
    S.check(len(stack) == 0, 'every element is closed: %s' % stack)


def visible(S, html):
    """the character data of the document"""
    out = ''
    for kind, name, t in S.tokens(html):
        if kind == 'text':
            out += S.decode(t)
    return out


def solid(S, c):
    """is the (single) character no white space?"""
    return S.no(S.has(c, r'\s'))


SCHEMES = ('http', 'https', 'ftp', 'nntp', 'news', 'mailto', 'telnet', 'file', 'irc')
# what can start an inline construct (a lone tilde and URLs apart)
MARKS = ('**', '//', '##', '^^', ',,', '__', '--', '~~', '\\\\', '[[', '{{', '<<')


def flat(html):
    """without line breaks and tabs: the layout of the HTML source is not part of a property"""
    return html.replace('\n', '').replace('\t', '')


def same(a, b):
    return flat(a) == flat(b)


def tight(html):
    """without the line breaks between blocks"""
    for t in ('</p>', '</pre>', '</ul>', '</ol>', '</table>', '<hr />'):
        html = html.replace(t + '\n\n', t).replace(t + '\n', t)
    return html


def alike(a, b):
    """same, where line breaks matter"""
    return tight(a) == tight(b)
