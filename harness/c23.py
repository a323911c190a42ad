"""C23: README.rst and README.md follow README.creole: written when it changed, left alone otherwise, and checked."""
import datetime
import sys

from harness.files import Fault, System

BOUNDS = {
    'update': 'every generated text of up to 4 (quick) / 6 (thorough) characters over none, the same, another or any old file of up to 4 / 6 characters and its note; 3 times of modification, 3 file names',
    'assert': 'the same old files',
    'real': 'the real converters on 4 documents with every text of up to 2 / 3 characters, README in UTF-8 on systems with 2 locales',
    'fault': 'a failure at any step (reading, converting, rendering, an unknown tag, opening for writing)',
    'long': 'get_long_description() on every text of up to 3 / 5 characters, with and without errors raised, 4 failures',
    'environment': 'files are a model (name -> encoding, text); rendering by readme_renderer, Markdown and docutils is a stub that accepts or refuses',
}
ANY = r'[^\ud800-\udfff\r]'
KINDS = ['rst', 'markdown']
EXT = {'rst': '.rst', 'markdown': '.md'}
NOTE = '\n\n------------\n\n``Note: this file is generated from %s %s with "python-creole"``'
TIMES = [0, 1600000000.75, 1300000001]


def cases(tier):
    q = tier == 'quick'
    out = []
    for k in range(2):
        out.append(('update-' + KINDS[k], 'update', k, 4 if q else 6))
        out.append(('again-' + KINDS[k], 'again', k, 4 if q else 6))
        out.append(('any-' + KINDS[k], 'any_old', k, 4 if q else 6))
        out.append(('note-' + KINDS[k], 'other_note', k, 3 if q else 4))
        out.append(('fault-' + KINDS[k], 'fault', k))
        out.append(('real-' + KINDS[k], 'real', k, 2 if q else 3))
        out.append(('refused-' + KINDS[k], 'refused', k, 2))
    out.append(('long', 'long', 3 if q else 5))
    out.append(('raise', 'raise_args'))
    return out


def note(name, mtime):
    dt = datetime.datetime.fromtimestamp(int(mtime))
    return NOTE % (name, dt.strftime('%Y-%m-%d %H:%M:%S'))


def stubs(S, system, result, source=None, ok=True):
    """a converter that gives `result`"""
    seen = []

    def to_html(text, *a, **k):
        seen.append(text)
        system.fail('creole', Fault)
        return 'html'

    def from_html(html, *a, **k):
        system.fail('convert', Fault)
        return result

    names = system.names()
    names.update(creole2html=to_html, html2rest=from_html, html2markdown=from_html)
    names.update(renderers(system))
    return names, seen


def renderers(system):
    def render(text, *a, **k):
        system.fail('render', Fault)
        if system.fault == 'refuse':
            system.raised = True
            return None
        return 'rendered'

    def markdown(text, *a, **k):
        system.fail('render', Fault)
        return 'rendered'
    return {'render': render, 'markdown': Named(markdown=markdown), 'unified_diff': lambda *a, **k: 'diff'}


class Named:
    def __init__(self, **k):
        self.__dict__.update(k)


def call(S, system, names, what, kind, name):
    """-> (result, error)"""
    M = S.load('creole.setup_utils')
    try:
        with S.patched(M, **names):
            r = getattr(M, what + '_' + kind + '_readme')(names['Path']('/p'), filename=name)
    except (Fault, OSError, UnicodeError, AssertionError, NotImplementedError) as e:
        return None, e
    except SystemExit as e:
        return None, e
    return r, None


def out_name(kind, name):
    return '/p/' + name.rsplit('.', 1)[0] + EXT[kind]


NAMES = ['README.creole', 'a.b.creole', 'DOC.txt']


def setting(S, result, old):
    name = S.choice('name', NAMES)
    mtime = S.choice('mtime', TIMES)
    system = System(S, {'/p/' + name: ('utf-8', ' src\n'), '/p/other': ('utf-8', 'x')}, '', 'utf-8', mtime)
    return name, mtime, system


def update(S, k, n):
    """none, the same text with an older note, another text"""
    kind = KINDS[k]
    result, old = S.text('result', 0, n, ANY), S.text('old', 0, n, ANY)
    name, mtime, system = setting(S, result, old)
    dest = out_name(kind, name)
    had = S.choice('had', ['none', 'same', 'other'])
    if had != 'none':
        before = (result if had == 'same' else old) + note(name, 86400 * 7)
        system.files[dest] = ('utf-8', before)
    names, seen = stubs(S, system, result)
    r, err = call(S, system, names, 'update', kind, name)
    S.check(err is None, 'the file is updated')
    S.check(str(r) == dest, 'the path is returned')
    S.check(len(seen) == 1 and seen[0] == 'src', 'README.creole without blanks around it is converted')
    keep = had == 'same' or had == 'other' and old == result
    if keep:
        S.check(dest not in system.written and S.same(system.files[dest][1], before), 'an up to date file is left alone')
    else:
        S.check(S.same(system.files[dest][1], result + note(name, mtime)), 'the text and the note are written')
        S.check(system.files[dest][0] == 'utf-8', 'it is UTF-8')
    S.check(system.files['/p/' + name] == ('utf-8', ' src\n') and system.files['/p/other'] == ('utf-8', 'x'), 'other files stay')


def again(S, k, n):
    """updating twice is updating once, and what is updated passes the check"""
    kind = KINDS[k]
    result = S.text('result', 0, n, ANY)
    name, mtime, system = setting(S, result, '')
    names, seen = stubs(S, system, result)
    dest = out_name(kind, name)
    r, err = call(S, system, names, 'update', kind, name)
    S.check(err is None, 'the file is updated')
    first = system.files[dest]
    del system.written[:]
    system.mtime = mtime + 5000
    r, err = call(S, system, names, 'assert', kind, name)
    S.check(err is None, 'an updated file passes the check')
    r, err = call(S, system, names, 'update', kind, name)
    S.check(err is None and str(r) == dest, 'the path is returned')
    S.check(dest not in system.written, 'an up to date file is left alone')
    S.check(S.same(system.files[dest][1], first[1]), 'an up to date file is left alone')


def any_old(S, k, n):
    """any old file without a note"""
    part = S.choice('part', ['', NOTE[:14], NOTE[:15], NOTE[:16], NOTE[:22], NOTE[2:], NOTE[1:] + '\n'])
    n = n if part == '' else 1
    old_file(S, k, S.text('result', 0, n - 1, ANY), S.text('old', 0, n, ANY) + part, False)


def other_note(S, k, n):
    """text, or text with lines after it, and a note"""
    tail = S.choice('tail', ['', '\n', '\n\n', '\nx\n', '\n\n------------\n\nx'])
    old_file(S, k, S.text('result', 0, n, ANY) + tail, S.text('old', 0, n, ANY) + S.choice('otail', ['', '\n', '\n\n------------\n\nx']), True)


def old_file(S, k, result, old, noted):
    kind = KINDS[k]
    name = 'README.creole'
    system = System(S, {'/p/' + name: ('utf-8', 'src')}, '', 'utf-8', 5)
    dest = out_name(kind, name)
    before = old + note(name, 86400) if noted else old
    system.files[dest] = ('utf-8', before)
    names, seen = stubs(S, system, result)
    r, err = call(S, system, names, 'assert', kind, name)
    fresh = noted and old == result
    if fresh:
        S.check(err is None, 'an up to date file passes the check')
    else:
        S.check(isinstance(err, AssertionError), 'a file that is not up to date does not pass the check')
    S.check(dest not in system.written and S.same(system.files[dest][1], before), 'checking changes nothing')
    r, err = call(S, system, names, 'update', kind, name)
    S.check(err is None, 'the file is updated')
    if fresh:
        S.check(S.same(system.files[dest][1], before) and dest not in system.written, 'an up to date file is left alone')
    else:
        S.check(S.same(system.files[dest][1], result + note(name, 5)), 'the text and the note are written')


def fault(S, k):
    kind = KINDS[k]
    name = 'README.creole'
    what = S.choice('what', ['update', 'assert'])
    system = System(S, {'/p/' + name: ('utf-8', 'src')}, S.choice('fault', ['open', 'read', 'decode', 'creole', 'convert', 'render', 'refuse', 'write', 'missing', 'dir']), 'utf-8', 5)
    dest = out_name(kind, name)
    had = S.bool('had')
    if had:
        system.files[dest] = ('utf-8', 'old' + note(name, 3))
    if system.fault in ('missing', 'dir'):
        del system.files['/p/' + name]
        if system.fault == 'missing':
            system.files['/p/other'] = ('utf-8', 'x')
        system.raised = True
    before = dict(system.files)
    names, seen = stubs(S, system, 'old')
    r, err = call(S, system, names, what, kind, name)
    if system.raised:
        S.check(err is not None, 'a failure is not ignored')
    if err is not None:
        for p in before:
            S.check(system.files.get(p) == before[p], 'on a failure every file keeps its content')
        S.check((dest in system.files) == had, 'on a failure no file is made')


DOCS = ['= %', '* a\n* %', '%', 'a\n\n%']


def real(S, k, n):
    """the converters themselves, README is UTF-8 whatever the locale is"""
    kind = KINDS[k]
    t = S.text('t', 1, n, r'[a-z\u0080-\u04ff]')
    S.require(S.no(S.has(t, r'[\s]')))
    doc = t.join(S.choice('doc', DOCS).split('%'))
    locale = S.choice('locale', ['utf-8', 'cp1252'])
    system = System(S, {'/p/README.creole': ('utf-8', doc + '\n\n')}, '', 'utf-8', 5, locale)
    names = system.names()
    names.update(renderers(system))
    r, err = call(S, system, names, 'update', kind, 'README.creole')
    S.check(err is None, 'the file is updated')
    C = S.load('creole')
    exp = getattr(C, 'html2rest' if kind == 'rst' else 'html2markdown')(C.creole2html(doc))
    S.check(system.files[out_name(kind, 'README.creole')] == ('utf-8', exp + note('README.creole', 5)), 'the conversion of README.creole in UTF-8')
    r, err = call(S, system, names, 'assert', kind, 'README.creole')
    S.check(err is None, 'an updated file passes the check')


def refused(S, k, n):
    """a tag the markup does not have"""
    kind = KINDS[k]
    t = S.text('t', 1, n, '[a-z]')
    system = System(S, {'/p/README.creole': ('utf-8', t)}, '', 'utf-8', 5)
    names = system.names()
    names.update(renderers(system))
    doc = S.choice('doc', ['<x>%</x>', '<p>a <zz>%</zz></p>', '<ul><li>%<foo>b</foo></li></ul>', '<marquee>%</marquee>'])
    names['creole2html'] = lambda text, *a, **kw: text.join(doc.split('%'))
    r, err = call(S, system, names, 'update', kind, 'README.creole')
    S.check(err is not None, 'an unknown tag is an error')
    S.check(out_name(kind, 'README.creole') not in system.files, 'on a failure no file is made')


def long(S, n):
    """get_long_description()"""
    M = S.load('creole.setup_utils')
    P = S.load('creole.rest_tools.pypi_rest2html')
    t = S.text('t', 1, n, r'[a-z\u0080-\u04ff ]')
    doc = S.choice('doc', ['%', '= %', '%\n\nb']).replace('%', '\0')
    doc = t.join(doc.split('\0'))
    errors = S.bool('errors')
    fault = S.choice('fault', ['', 'open', 'read', 'decode', 'convert', 'self', 'exit', 'tag'])
    system = System(S, {'/p/README.creole': ('utf-8', ' ' + doc + '\n')}, fault)
    names = system.names()
    names['sys'] = Named(argv=['setup.py', 'check' if errors else 'install'], stderr=Null(), exit=sys.exit, exc_info=sys.exc_info)
    given = S.choice('given', [None, True, False])
    if given is not None:
        errors = given
    C = S.load('creole')
    html = C.creole2html
    if fault == 'convert':
        def html(*a, **k):
            system.fail('convert', Fault, 'no')
    if fault == 'tag':
        def html(text, *a, **k):
            return '<p>' + text + '<zz>b</zz></p>'
    names['creole2html'] = html
    tested = []

    def self_test(text, *a, **k):
        tested.append(text)
        system.fail('self', Fault)
        system.fail('exit', SystemExit, 2)
        return 'html'
    r = err = None
    try:
        with S.patched(P, pypi_rest2html=self_test):
            with S.patched(M, **names):
                r = M.get_long_description('/p', raise_errors=given)
    except (Fault, OSError, UnicodeError, AssertionError, NotImplementedError) as e:
        err = e
    except SystemExit as e:
        err = e
    if errors:
        bad = system.raised or fault == 'tag'
        S.check((err is not None) == bool(bad), 'errors are raised if asked for')
        if err is None:
            S.check(len(tested) == 1 and tested[0] == r, 'the text is tested')
    else:
        S.check(err is None, 'nothing is raised if not asked for')
        S.check(tested == [], 'no test if errors are not raised')
    if err is None:
        if system.raised:
            origin = doc.strip() if fault == 'convert' else ''
            S.check(r.endswith(origin) and r.startswith('[Error: '), 'the source with the error stands in')
        else:
            exp = doc.strip() if fault != 'tag' else (doc.strip() + 'b')
            exp = C.html2rest(C.creole2html(doc.strip())) if fault != 'tag' else C.html2rest('<p>' + exp + '</p>')
            S.check(r == exp, 'the conversion of README.creole')


class Null:
    def write(self, *a):
        pass

    def flush(self):
        pass


ARGS = ['check', 'register', 'sdist', 'bdist', 'upload', '--long-description', '--restructuredtext', 'install', 'build', '-x']


def raise_args(S):
    M = S.load('creole.setup_utils')
    argv = ['setup.py']
    for i in range(S.choice('n', [0, 1, 2])):
        argv.append(S.choice('a%d' % i, ARGS))
    with S.patched(M, sys=Named(argv=argv)):
        r = M.should_raise_errors()
    S.check(bool(r) == (len(argv) == 1 or any([a in ARGS[:7] for a in argv[1:]])), 'errors are raised by the commands that publish')
