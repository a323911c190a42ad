"""C24: docutils runs without file access and raw HTML, and PyPI's link rules are kept."""
from harness import lib  # noqa: F401

BOUNDS = {
    'rest2html': 'every content and result of up to 4 (quick) / 6 (thorough) characters, every overrides dict of up to 2 settings with every value of up to 2 / 3 characters or one of 3 numbers, content that is no text',
    'schemes': 'every URL scheme of up to 7 / 8 ASCII characters, upper or lower case, with 6 kinds of rest, as link, target and image',
    'urls': 'every URL of up to 2 characters (every character) and 4 / 5 ASCII characters (5: without "[")',
    'documents': 'documents of up to 3 / 4 nodes of 6 kinds, good and bad links in every order',
    'environment': 'docutils is a stub that records its settings; the document tree is made of the real docutils nodes',
}
WHITE = ['file', 'ftp', 'gopher', 'hdl', 'http', 'https', 'imap', 'mailto', 'mms', 'news', 'nntp', 'prospero', 'rsync', 'rtsp', 'rtspu', 'sftp',
         'shttp', 'sip', 'sips', 'snews', 'svn', 'svn+ssh', 'telnet', 'wais', 'irc']
LONG = [w for w in WHITE if len(w) > 5]
ANY = r'[^\ud800-\udfff]'


def cases(tier):
    q = tier == 'quick'
    out = [('rest2html', 'rest', 4 if q else 6), ('overrides', 'overrides', 2 if q else 3), ('no-text', 'no_text')]
    for n in range(1, 8 if q else 9):
        out.append(('scheme-%d' % n, 'scheme', n))
    out.append(('white', 'white'))
    out.append(('near', 'near'))
    for n in range(0, 5 if q else 6):
        out.append(('url-%d' % n, 'url', n))
    for n in range(0, 4 if q else 5):
        out.append(('document-%d' % n, 'document', n))
    out.append(('output', 'output', 3 if q else 5))
    return out


class Calls:
    """docutils.core: every run and its settings"""

    def __init__(self, doc=None, parts=None):
        self.doc, self.parts, self.runs = doc, parts, []

    def note(self, source, k):
        s = {}
        s.update(k.get('settings_overrides') or {})
        s['=status'] = k.get('enable_exit_status')
        s['=source'] = source
        self.runs.append(s)

    def publish_parts(self, source, *a, **k):
        self.note(source, k)
        return self.parts

    def publish_string(self, source, *a, **k):
        self.note(source, k)
        return self.parts['html_body']

    def publish_doctree(self, source, *a, **k):
        self.note(source, k)
        return self.doc

    def publish_from_doctree(self, document, *a, **k):
        self.note(document, k)
        return self.parts['whole']

    def names(self):
        calls = self

        class Publisher:
            def __init__(self, *a, **k):
                self.writer = Writer(calls.parts)
                self.source = k.get('source')
                self.settings = None

            def set_writer(self, name):
                calls.runs[-1]['=writer'] = name

            def set_components(self, *a, **k):
                pass

            def process_programmatic_settings(self, spec=None, overrides=None, section=None, *a, **k):
                calls.note(self.source, {'settings_overrides': overrides})

            def set_source(self, *a, **k):
                pass

            def set_destination(self, *a, **k):
                pass

            def publish(self, *a, **k):
                return calls.parts['whole']
        return {'publish_parts': self.publish_parts, 'publish_string': self.publish_string, 'publish_doctree': self.publish_doctree,
                'publish_from_doctree': self.publish_from_doctree, 'Publisher': Publisher}


class Writer:
    def __init__(self, parts):
        self.parts = parts


def safe(S, calls):
    S.check(len(calls.runs) > 0, 'docutils runs')
    for r in calls.runs:
        S.check('file_insertion_enabled' in r and not r['file_insertion_enabled'], 'docutils runs without access to files')
    S.check('raw_enabled' in calls.runs[0] and not calls.runs[0]['raw_enabled'], 'docutils runs without raw HTML')


def rest_run(S, content, **k):
    M = S.load('creole.rest_tools.clean_writer')
    body = S.text('body', 0, 2, ANY)
    calls = Calls(None, {'html_body': body, 'body': 'x', 'fragment': 'y', 'whole': 'z'})
    with S.patched(M, **calls.names()):
        r = M.rest2html(content, **k)
    S.check(S.same(r, body), 'the whole body is returned')
    S.check(len(calls.runs) == 1 and S.same(calls.runs[0]['=source'], content), 'the whole content is rendered')
    return calls


def rest(S, n):
    content = S.text('content', 0, n, ANY)
    k = {}
    status = S.choice('status', [None, 0, 1])
    if status is not None:
        k['enable_exit_status'] = status
    calls = rest_run(S, content, **k)
    safe(S, calls)
    S.check(calls.runs[0]['=status'] == status, 'the exit status is handed on')
    S.check(not calls.runs[0].get('doctitle_xform', True), 'the first heading stays in the body')


SETTINGS = ['traceback', 'exit_status_level', 'halt_level', 'initial_header_level', 'doctitle_xform', 'input_encoding', 'stylesheet', 'raw', 'file_insertion', 'language_code']


def overrides(S, n):
    k = {}
    m = S.choice('n', [0, 1, 2])
    for i in range(m):
        name = S.choice('name%d' % i, SETTINGS)
        kind = S.choice('kind%d' % i, ['text', 'number', 'none'])
        k[name] = S.text('t%d' % i, 0, 1 if i else n, ANY) if kind == 'text' else S.choice('i%d' % i, [0, 1, 5]) if kind == 'number' else None
    calls = rest_run(S, 'a', **k)
    safe(S, calls)
    for name in k:
        S.check(name in calls.runs[0] and S.same(calls.runs[0][name], k[name]), 'the settings of the caller are used')


def no_text(S):
    M = S.load('creole.rest_tools.clean_writer')
    calls = Calls(None, {'html_body': 'a'})
    err = None
    with S.patched(M, **calls.names()):
        try:
            M.rest2html(S.choice('what', [b'a', None, 1, ['a']]))
        except (AssertionError, TypeError) as e:
            err = e
    S.check(err is not None and calls.runs == [], 'bytes are not rendered')


def tree(S, parts):
    """a document of the real nodes"""
    import docutils.nodes as N
    from docutils.utils import new_document
    doc = new_document('x')
    for kind, uri in parts:
        p = N.paragraph()
        doc += p
        if kind == 'text':
            p += N.Text('http')
        elif kind == 'plain':
            p += N.emphasis('', 'javascript:x')
        elif kind == 'link':
            p += N.reference('', 'x', refuri=uri)
        elif kind == 'image':
            p += N.image(uri=uri)
        elif kind == 'target':
            p += N.target('', '', refuri=uri)
        elif kind == 'linked':
            r = N.reference('', '', refuri='http://h')
            p += r
            r += N.image(uri=uri)
        elif kind == 'linking':
            r = N.reference('', '', refuri=uri)
            p += r
            r += N.image(uri='http://h')
    return doc


def pypi(S, doc, *a):
    """-> (calls, result, error)"""
    M = S.load('creole.rest_tools.pypi_rest2html')
    body = S.text('body', 0, 2, ANY) if a else 'body'
    calls = Calls(doc, {'body': body, 'html_body': 'x', 'fragment': 'y', 'whole': 'z'})
    try:
        with S.patched(M, **calls.names()):
            r = M.pypi_rest2html('source', *a)
    except Exception as e:
        if type(e).__name__ not in ('TransformError', 'ValueError'):
            raise
        return calls, None, e
    return calls, r, None


def scheme_of(uri):
    """RFC 3986; blanks and control characters around and line ends and tabs anywhere do not count"""
    import re
    uri = re.sub(r'[\t\n\r]', '', re.sub(r'^[\x00-\x20]+', '', uri))
    m = re.match(r'([a-zA-Z][a-zA-Z0-9+.\-]*):', uri)
    return m.group(1).lower() if m else ''


def judge(S, kind, uri, sure=True):
    calls, r, err = pypi(S, tree(S, [(kind, uri)]))
    S.check(calls.runs[0].get('halt_level') == 2, 'warnings are errors')
    good = scheme_of(uri) in WHITE
    if good:
        S.check(err is None or not sure, 'a link with a known scheme is accepted')
        if err is None:
            safe(S, calls)
            S.check(r == 'body', 'the body is returned')
    else:
        S.check(err is not None, 'a link without a known scheme is refused')


KINDS = ['link', 'image', 'target', 'linked', 'linking']
RESTS = [':', '://h/', ':x', '', '/x:y', ' :x', '//h']


def scheme(S, n):
    judge(S, 'link', S.text('s', n, n, r'[a-zA-Z0-9+.\-]') + (S.choice('rest', RESTS) if n < 6 else '://h/'))


def white(S):
    """every known scheme in upper and lower case"""
    w = S.choice('w', WHITE)
    out = ''
    for i, c in enumerate(w):
        out += c.upper() if i < 6 and c != '+' and S.bool('u%d' % i) else c
    judge(S, 'link', out + '://h/x')


def near(S):
    """one character off"""
    w = S.choice('w', WHITE)
    i = S.int('i', 0, len(w))
    t = S.text('t', 0, 1, r'[^:]')
    cut = S.bool('cut')
    if i == len(w) and not cut:
        i = 0
    judge(S, S.choice('kind', KINDS), w[:i] + t + w[i + 1 if cut else i:] + '://h/x', False)


def url(S, n):
    judge(S, S.choice('kind', KINDS[:2]), S.text('u', n, n, ANY if n < 3 else r'[\x00-\x7f]' if n < 5 else r'[\x00-\x5a\x5c-\x7f]'), False)


def document(S, n):
    parts = []
    bad = False
    for i in range(n):
        kind = S.choice('k%d' % i, ['text', 'plain'] + KINDS)
        uri = ''
        if kind in KINDS:
            ok = S.bool('ok%d' % i)
            uri = ('http' if ok else 'data') + ':' + S.text('t%d' % i, 0, 1, '[a-z:/]')
            bad = bad or not ok
        parts.append((kind, uri))
    calls, r, err = pypi(S, tree(S, parts))
    if bad:
        S.check(err is not None, 'a link without a known scheme is refused')
    else:
        S.check(err is None and r == 'body', 'a document with good links is accepted')
        safe(S, calls)


def output(S, n):
    """the body as text or in an encoding"""
    enc = S.choice('enc', ['unicode', 'utf-8'])
    calls, r, err = pypi(S, tree(S, []), enc)
    S.check(err is None, 'a document with good links is accepted')
    if enc != 'unicode':
        r = r.decode(enc)
    S.check(S.same(r, calls.parts['body']), 'the body is returned')
    safe(S, calls)
