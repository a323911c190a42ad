"""C25: the example macros pass on, escape and highlight all of their text."""

BOUNDS = {
    'html, pre': 'every text of up to 6 (quick) / 8 (thorough) characters, every character',
    'apart': 'every pair of texts of up to 3 / 4 characters',
    'code': 'every text of up to 3 / 4 characters and every highlighted text of up to 3 / 4, a highlighter that works, fails in 5 ways or is missing',
    'extension': 'every name of up to 4 / 6 characters with blanks, dot or file name before it; known to the lexers or not',
    'document': 'the three macros in a document, as block and in a line, every text of up to 3 / 4 characters, with the macros as module and as dict',
    'environment': 'pygments is a stub that records lexer and text; a lexer is known or not',
}
ANY = r'[^\ud800-\udfff]'


def cases(tier):
    q = tier == 'quick'
    return [
        ('html', 'html', 6 if q else 8),
        ('pre', 'pre', 6 if q else 8),
        ('apart', 'apart', 3 if q else 4),
        ('code', 'code', 3 if q else 4),
        ('missing', 'missing', 5 if q else 6),
        ('fails', 'fails', 4 if q else 5),
        ('ext', 'ext', 4 if q else 6),
        ('guess', 'guess', 3 if q else 4),
        ('long', 'long_text', 2),
        ('document-0', 'document', 0, 3 if q else 4),
        ('document-1', 'document', 1, 3 if q else 4),
        ('document-2', 'document', 2, 3 if q else 4),
    ]


class Bytes:
    def __init__(self, s):
        self.s = s

    def decode(self, encoding='utf-8', errors='strict'):
        return self.s


class Unknown(Exception):
    pass


class Lexer:
    def __init__(self, name):
        self.name = name


class Pygments:
    """what is asked of pygments"""

    def __init__(self, S, known, result='', error=None):
        self.S, self.known, self.result, self.error = S, known, result, error
        self.asked, self.guessed, self.calls = [], [], []

    # the module lexers
    ClassNotFound = Unknown

    def get_lexer_by_name(self, name, **k):
        self.asked.append(name)
        if self.known:
            return Lexer(name)
        raise Unknown('no lexer for alias')

    def guess_lexer(self, text, **k):
        self.guessed.append(text)
        return Lexer('guessed')

    def highlight(self, text, lexer, formatter, outfile=None):
        self.calls.append((text, lexer))
        if self.error is not None:
            raise self.error
        return Bytes(self.result) if formatter.encoding else self.result

    def formatter(self, **k):
        return Formatter(k)


class Formatter:
    def __init__(self, k):
        self.encoding = k.get('outencoding') or k.get('encoding')


def with_pygments(S, p, f, missing=False):
    M, U = S.load('creole.shared.example_macros'), S.load('creole.shared.utils')
    with S.patched(U, PYGMENTS=not missing, lexers=p, HtmlFormatter=p.formatter):
        with S.patched(M, PYGMENTS=not missing, highlight=p.highlight):
            return f(M)


def escaped(text):
    return text.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def plain(text):
    return '<pre>' + escaped(text) + '</pre>'


def html(S, n):
    t = S.text('t', 0, n, ANY)
    S.check(S.same(S.load('creole.shared.example_macros').html(t), t), 'html is passed on')


def pre(S, n):
    t = S.text('t', 0, n, ANY)
    r = S.load('creole.shared.example_macros').pre(t)
    S.check(S.same(r, plain(t)), 'the text is escaped in pre')
    inner = r[5:-6]
    S.check(S.no(S.has(inner, '[<>]')), 'no tag comes out of the text')
    S.check(S.same(S.decode(inner), t), 'the escaped text stands for the text')


def apart(S, n):
    """two texts are shown alike only if they are the same"""
    t, u = S.text('t', n, n, ANY), S.text('u', 0, n, ANY)
    M = S.load('creole.shared.example_macros')
    if M.pre(t) == M.pre(u):
        S.check(t == u, 'different texts are shown differently')
    else:
        S.check(t != u, 'the same text is shown alike')


def br(text):
    """every line end as a break"""
    return text.replace('\n', '<br />\n')


def code(S, n):
    t, h = S.text('t', 0, n, ANY), S.text('h', 0, n, ANY)
    p = Pygments(S, True, h)
    r = with_pygments(S, p, lambda M: M.code('.py', t))
    S.check(len(p.calls) == 1 and S.same(p.calls[0][0], t), 'all of the text is highlighted')
    S.check(p.calls[0][1].name == 'py', 'with the lexer of the extension')
    S.check(S.same(r, br(h)), 'the highlighted text is shown with its line ends')


def missing(S, n):
    t = S.text('t', 0, n, ANY)
    r = with_pygments(S, Pygments(S, True), lambda M: M.code(S.choice('ext', ['.py', 'py', '', '.']), t), True)
    S.check(S.same(r, plain(t)) or S.same(r, br(plain(t))), 'without pygments the text is escaped in pre')


def fails(S, n):
    t = S.text('t', 0, n, ANY)
    error = S.choice('error', [ValueError('x'), Unknown('x'), UnicodeDecodeError('utf-8', b'x', 0, 1, 'x'), KeyError('k'), RuntimeError('<b>')])
    r = with_pygments(S, Pygments(S, S.bool('known'), '', error), lambda M: M.code(S.choice('ext', ['.py', 'py', '']), t))
    S.check(S.same(r, br(plain(t))) or S.same(r, plain(t)), 'if highlighting fails the text is escaped in pre')


def ext(S, n):
    name = S.text('name', 1, n, r'[a-z0-9+#\-]')
    e = S.choice('form', ['.%', '%', ' .%', '.% ', '  %  ', 'a.%', 'main.%\n', '\t%']).replace('%', '\0')
    e = name.join(e.split('\0'))
    p = Pygments(S, True, 'h')
    r = with_pygments(S, p, lambda M: M.code(e, 'x'))
    S.check(r == 'h', 'the highlighted text is shown')
    S.check(len(p.asked) > 0 and S.same(p.asked[0], name), 'the extension names the lexer')
    S.check(len(p.calls) == 1 and S.same(p.calls[0][1].name, name), 'the named lexer is used')
    S.check(p.guessed == [], 'no lexer is guessed if the extension names one')


def guess(S, n):
    t = S.text('t', 1, n, ANY)
    e = S.choice('ext', ['', '.', ' ', '.zz', 'zz', 'a.zz', ' . '])
    p = Pygments(S, False, 'h')
    r = with_pygments(S, p, lambda M: M.code(e, t))
    S.check(r == 'h', 'the highlighted text is shown')
    S.check(len(p.guessed) == 1 and S.same(p.guessed[0], t), 'the lexer is guessed from all of the text')
    S.check(p.calls[0][1].name == 'guessed' and S.same(p.calls[0][0], t), 'the guessed lexer is used')


def long_text(S, n):
    """text with lines, tags and entities around"""
    t = S.text('t', 0, n, ANY)
    doc = S.choice('doc', ['a\n\n%\nb', '  <b>%</b>\n', '&lt;%&', '<script>%</script>', '%\n', '\n\n%', '"%\'\r\n']).replace('%', '\0')
    t = t.join(doc.split('\0'))
    M = S.load('creole.shared.example_macros')
    S.check(S.same(M.html(t), t), 'html is passed on')
    S.check(S.same(M.pre(t), plain(t)), 'the text is escaped in pre')
    p = Pygments(S, True, t)
    S.check(S.same(with_pygments(S, p, lambda M: M.code('py', t)), br(t)) and S.same(p.calls[0][0], t), 'all of the text is highlighted')


def document(S, i, n):
    """the macros in Creole"""
    t = S.text('t', 1, n, r'[^\s\ud800-\udfff\x00-\x1f\u007f-\u00a0<>~]')
    name, args, out = [('html', '', t), ('pre', '', plain(t)), ('code', ' ext=".py"', None)][i]
    error = None
    if i == 2:
        error = S.choice('error', [None, ValueError('x')])
        out = 'H' if error is None else plain(t)
    p = Pygments(S, True, 'H', error)
    M = S.load('creole.shared.example_macros')
    macros = S.choice('macros', [M, {'html': M.html, 'pre': M.pre, 'code': M.code}])
    form = S.choice('form', ['<<%s>>\n%t\n<</%s>>', 'a <<%s>>%t<</%s>> b', '<<%s>>%t<</%s>>'])
    doc = form.replace('<<%s', '<<' + name + args).replace('%s', name)
    doc = t.join(doc.split('%t'))
    r = with_pygments(S, p, lambda M: S.load('creole').creole2html(doc, macros=macros))
    if i == 2:
        S.check(len(p.calls) == 1 and S.same(p.calls[0][0], t), 'all of the text is highlighted')
    if form[0] == 'a':
        S.check(S.same(r, '<p>a ' + out + ' b</p>'), 'the result of the macro stands in the line')
    else:
        S.check(S.same(r.strip(), out) or S.same(r.strip(), '<p>' + out + '</p>'), 'the result of the macro is the block')
