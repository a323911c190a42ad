"""C22: the command line tools convert whole files and never destroy data on failure."""
import sys

from harness.files import Fault, System, alike, cannot_hold, norm

BOUNDS = {
    'convert': 'every content and result of up to 6 (quick) / 8 (thorough) characters, 5 encodings, the destination new, old or the source itself, a failure at any step (open, read, decode, convert, encode, open for writing)',
    'tools': 'each of the four commands with its own converter on documents with text of up to 3 / 5 characters, encodings given in 3 ways, default encoding',
    'arguments': 'every name of the files of up to 2 / 3 characters',
    'environment': 'the file system and the codecs are models: a file is its text and encoding, opening for writing empties it at once',
}
ENC = ['utf-8', 'latin-1', 'ascii', 'utf-16', 'cp1252']
ANY = r'[^\ud800-\udfff]'
TOOLS = ['creole2html', 'html2creole', 'html2rest', 'html2textile']


def cases(tier):
    q = tier == 'quick'
    out = []
    for e in range(len(ENC)):
        out.append(('convert-' + ENC[e], 'convert', e, 6 if q else 8))
        out.append(('plain-' + ENC[e], 'plain', e, 6 if q else 8))
    for i in range(len(TOOLS)):
        out.append((TOOLS[i], 'tool', i, 3 if q else 5))
        out.append((TOOLS[i] + '-wide', 'tool_wide', i, 2 if q else 3))
        out.append((TOOLS[i] + '-fault', 'tool_fault', i))
    out.append(('big', 'big'))
    out.append(('arguments', 'arguments', 2 if q else 3))
    return out


class Argv:
    def __init__(self, argv):
        self.argv = argv

    def __enter__(self):
        self.old = sys.argv
        sys.argv = self.argv

    def __exit__(self, *a):
        sys.argv = self.old
        return False


def run(S, system, f):
    """-> the error"""
    M = S.load('creole.cmdline')
    try:
        with S.patched(M, **system.names()):
            f(M)
    except (Fault, OSError, UnicodeError, LookupError) as e:
        return e
    return None


def cli(M):
    return M.CreoleCLI.__new__(M.CreoleCLI)


FAULTS = ['', 'open', 'read', 'decode', 'convert', 'encode', 'write']


def convert(S, e, n):
    src, result, old = S.text('src', 0, n, ANY), S.text('result', 0, n, ANY), S.text('old', 1, 1, ANY)
    case(S, ENC[e], src, result, old, S.choice('dest', WHERE), S.choice('fault', FAULTS))


# the destination: a new file, an old one, the source itself
WHERE = ['new', 'old', 'same']


def case(S, enc, src, result, old, where, fault):
    S.require(S.no(cannot_hold(S, src, enc)))
    files = {'a.txt': (norm(enc), src)}
    if where == 'old':
        files['b.txt'] = ('utf-8', old)
    dest = 'a.txt' if where == 'same' else 'b.txt'
    before = dict(files)
    system = System(S, files, fault, enc)
    seen = []

    def conv(text):
        seen.append(text)
        system.fail('convert', Fault)
        return result

    def f(M):
        c = cli(M)
        c.convert_func = conv
        c.convert('a.txt', dest, enc)
    err = run(S, system, f)
    if err is None:
        S.check(not system.raised, 'an error at any step is not ignored')
        S.check(len(seen) == 1 and S.same(seen[0], src), 'the whole source is converted')
        S.check(dest in files and S.same(files[dest][1], result), 'exactly the result is written')
        S.check(result == '' or alike(S, result, files[dest][0], enc), 'it is written in the encoding')
        S.check(where == 'same' or same_file(S, files['a.txt'], before['a.txt']), 'the source stays')
        return
    S.check(system.raised or cannot_hold(S, result, enc), 'an error only if a step fails or the encoding does not hold the result')
    kept(S, files, before, dest)


def kept(S, files, before, dest):
    for p in before:
        S.check(p in files and same_file(S, files[p], before[p]), 'on an error every file keeps its content')
    S.check((dest in files) == (dest in before), 'on an error no destination is made')


def same_file(S, a, b):
    return a[0] == b[0] and S.same(a[1], b[1])


def big(S):
    """a file that is longer than what one sized read gives"""
    x = S.text('x', 1, 2, ANY)
    text = x
    for i in range(2):
        system = System(S, {'a.txt': ('utf-8', text)}, '', 'utf-8')
        seen = []

        def conv(text):
            seen.append(text)
            return 'done'

        def f(M):
            c = cli(M)
            c.convert_func = conv
            c.convert('a.txt', 'b.txt', 'utf-8')
        err = run(S, system, f)
        S.check(err is None and len(seen) == 1 and S.same(seen[0], text), 'the whole source is converted')
        if not system.limits:
            break
        if max(system.limits) > 1 << 21:
            S.unsupported('files of more than 2 MB')
        text = 'a' * max(system.limits) + x


def plain(S, e, n):
    """no faults, longer contents"""
    case(S, ENC[e], S.text('src', 0, n + 2, ANY), S.text('result', 0, n + 2, ANY), 'x', S.choice('dest', ['new', 'old', 'same']), '')


DOCS = [['= %', '* %\n* b', '%'], ['<h1>%</h1>', '<p>%</p><p>b</p>', '%'], ['<h1>%</h1>', '<p>%</p><p>b</p>', '%'], ['<h1>%</h1>', '<p>%</p><p>b</p>', '%']]
OPTS = [[], ['--encoding', '@'], ['--encoding=@'], ['--enc', '@']]


def tool_run(S, i, doc, enc, opts, src, dst, files, fault=''):
    system = System(S, files, fault, enc)
    argv = ['prog'] + [src, dst] + [o.replace('@', enc) for o in opts]
    if opts and S.bool('first'):
        argv = ['prog'] + argv[3:] + [src, dst]

    def f(M):
        with Argv(argv):
            getattr(M, 'cli_' + TOOLS[i])()
    return run(S, system, f), system.raised


def tool(S, i, n):
    opts = S.choice('opts', OPTS)
    enc = S.choice('enc', ['utf-8', 'latin-1', 'UTF8', 'utf-16']) if opts else 'utf-8'
    t = S.text('t', 1, n, '[a-zA-Z]')
    doc = t.join(S.choice('doc', DOCS[i]).split('%'))
    files = {'in': (norm(enc), doc)}
    dst = S.choice('dst', ['out', 'in'])
    err, raised = tool_run(S, i, doc, enc, opts, 'in', dst, files)
    S.check(err is None, 'the file is converted')
    exp = getattr(S.load('creole'), TOOLS[i])(doc)
    S.check(files[dst][1] == exp and alike(S, exp, files[dst][0], enc), 'the conversion of this tool in the encoding')


def tool_wide(S, i, n):
    enc = S.choice('enc', ['utf-8', 'latin-1', 'ascii'])
    t = S.text('t', 1, n, r'[a-z\u0080-\ud7ff]')
    ref = S.choice('ref', ['', '&#8364;', '&uuml;'])
    doc = 'a' + t + ref
    S.require(S.no(cannot_hold(S, t, enc)))
    files = {'in': (norm(enc), doc), 'out': ('utf-8', 'old')}
    err, raised = tool_run(S, i, doc, enc, OPTS[1], 'in', 'out', files)
    exp = getattr(S.load('creole'), TOOLS[i])(doc)
    if cannot_hold(S, exp, enc):
        S.check(err is not None, 'what the encoding does not hold is an error')
        S.check(files['out'] == ('utf-8', 'old'), 'on an error the destination keeps its content')
    else:
        S.check(err is None and files['out'][1] == exp and files['out'][0] == norm(enc), 'the conversion of this tool in the encoding')


def tool_fault(S, i):
    fault = S.choice('fault', FAULTS[1:4] + FAULTS[5:] + ['missing', 'encoding'])
    dst = S.choice('dst', ['out', 'in'])
    files = {'in': ('utf-8', 'a')}
    if dst == 'out' and S.bool('old'):
        files['out'] = ('utf-8', 'old')
    if fault == 'missing':
        del files['in']
    before = dict(files)
    err, raised = tool_run(S, i, 'a', 'nonsense' if fault == 'encoding' else 'utf-8', OPTS[1], 'in', dst, files, fault)
    S.check(err is not None or not (raised or fault in ('missing', 'encoding')), 'an error at any step is not ignored')
    if err is not None:
        kept(S, files, before, dst)


def arguments(S, n):
    """the names of the files are used as they are"""
    i = S.choice('tool', [0, 1])
    a, b = S.choice('a', ['in.creole', './x', 'a b', '\xe4']), S.choice('b', ['out', '../y', 'b c', 'a b'])
    t = S.text('t', 1, n, '[a-z]')
    files = {a: ('utf-8', t)}
    err, raised = tool_run(S, i, t, 'utf-8', [], a, b, files)
    S.check(err is None and files[b][1] == getattr(S.load('creole'), TOOLS[i])(t), 'the destination is written')
    S.check(sorted(files) == sorted(set([a, b])), 'no other file')
    S.check(a == b or files[a][1] == t, 'the source stays')
