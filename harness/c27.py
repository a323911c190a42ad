"""C27: the diff of a README check says exactly what changed."""
from harness import c23
from harness.files import System

BOUNDS = {
    'texts': 'every pair of texts of up to 4 (quick) / 5 (thorough) characters out of two letters and line ends',
    'lines': 'texts of up to 3 / 4 lines each, every line one of 3 texts of one character that may be any or equal, with and without a line end at the end',
    'far': 'two changes of up to 1 character with 0 to 12 equal lines between them (the context of 3 lines meets or not), at the start and at the end',
    'change': 'every line of up to 4 / 6 characters changed, added or removed in a text of 4 lines',
    'message': 'the two README checks (RST, Markdown): old and generated text of up to 2 / 3 characters, old file with and without a note; converters, renderers and files as in C23',
    'environment': 'difflib is executed symbolically as well; line separators other than "\\n" are out of scope',
}
ANY = r'[^\n\r\x0b\x0c\x1c-\x1e\x85\u2028\u2029\ud800-\udfff]'


def cases(tier):
    q = tier == 'quick'
    return [('texts', 'texts', 4 if q else 5), ('lines', 'lines', 2 if q else 3), ('far', 'far', 1),
            ('change', 'change', 4 if q else 6), ('name', 'name', 3 if q else 5), ('parts', 'parts', 2),
            ('message-rst', 'message', 0, 2 if q else 3), ('message-markdown', 'message', 1, 2 if q else 3)]


def diff(S, old, new, *a):
    out = S.load('creole.shared.diff_utils').unified_diff(old, new, *a)
    S.observe('diff', out)
    return out


def parts(S, n):
    """lists of lines are taken as they are"""
    old = [S.text('a%d' % i, 1, 1, ANY) + '\n' for i in range(S.int('m', 0, n))]
    new = [S.text('b%d' % i, 1, 1, ANY) + '\n' for i in range(S.int('n', 0, n))]
    judge(S, ''.join(old), ''.join(new), diff(S, old, new), 'old', 'new')


def judge(S, old, new, out, a='old', b='new'):
    if out == '':
        return S.check(old == new, 'no diff for the same text only')
    S.check(S.no(old == new), 'the same text has no diff')
    S.check(out[len(out) - 1] == '\n', 'the diff ends with its line')
    lines = out.split('\n')
    lines.pop()
    S.check(lines[0] == '--- ' + a and lines[1] == '+++ ' + b, 'both names')
    # what the diff leaves out is the same in both texts
    src, dst = whole(old), whole(new)
    i = j = 0
    k = 2
    while k < len(lines):
        h = lines[k].split(' ')
        S.check(len(h) == 4 and h[0] == '@@' and h[3] == '@@' and h[1][0] == '-' and h[2][0] == '+', 'the head of a change')
        x, xn = span(h[1])
        y, yn = span(h[2])
        S.check(x - i == y - j and x >= i, 'what is left out is the same in both')
        while i < x:
            S.check(i < len(src) and j < len(dst) and src[i] == dst[j], 'what is left out did not change')
            i += 1
            j += 1
        k += 1
        changed = False
        while xn > 0 or yn > 0:
            S.check(k < len(lines), 'all lines of the change are there')
            c, t = lines[k][0], lines[k][1:]
            k += 1
            end = True
            if k < len(lines) and lines[k] == '\\ No newline at end of file':
                k += 1
                end = False
            if c == '-' or c == ' ':
                S.check(xn > 0 and src[i][0] == t, 'the old line')
                S.check(end == src[i][1], 'a missing line end is shown')
                i += 1
                xn -= 1
            if c == '+' or c == ' ':
                S.check(yn > 0 and dst[j][0] == t, 'the new line')
                S.check(end == dst[j][1], 'a missing line end is shown')
                j += 1
                yn -= 1
            S.check(c == ' ' or c == '-' or c == '+', 'a line is old, new or both')
            changed = changed or c != ' '
        S.check(changed, 'a change shows what changed')
    S.check(src[i:] == dst[j:], 'what is left out did not change')


def whole(text):
    """-> lines, each with: has it a line end?"""
    a = text.split('\n')
    out = [(t, True) for t in a[:-1]]
    if len(a[-1]):
        out.append((a[-1], False))
    return out


def span(x):
    """-> index of the first line, number of lines"""
    p = x[1:].split(',')
    n = int(p[1]) if len(p) > 1 else 1
    return (int(p[0]) - 1 if n else int(p[0])), n


def texts(S, n):
    old, new = S.text('old', 0, n, '[ab\n]'), S.text('new', 0, n, '[ab\n]')
    judge(S, old, new, diff(S, old, new))


def lines(S, n):
    x, y, z = S.text('x', 1, 1, ANY), S.text('y', 1, 1, ANY), S.text('z', 0, 1, ANY)
    old = new = ''
    for i in range(S.int('m', 0, n)):
        old += S.choice('o%d' % i, [x, y, z]) + '\n'
    for i in range(S.int('n', 0, n + 1)):
        new += S.choice('n%d' % i, [x, y, z]) + '\n'
    old += S.choice('oe', ['', x])
    new += S.choice('ne', ['', x])
    judge(S, old, new, diff(S, old, new))


def far(S, n):
    a, b, c, d = [S.text(k, 0, n, '[xy]') for k in 'abcd']
    mid = ''.join(['%d\n' % i for i in range(S.int('mid', 0, 12))])
    pre = ''.join(['p%d\n' % i for i in range(S.int('pre', 0, 4))])
    post = ''.join(['q%d\n' % i for i in range(S.choice('post', [0, 2, 5]))])
    old, new = pre + a + '\n' + mid + b + '\n' + post, pre + c + '\n' + mid + d + '\n' + post
    judge(S, old, new, diff(S, old, new))


def change(S, n):
    t, u = S.text('t', 0, n, ANY), S.text('u', 0, n, ANY)
    old, new = S.choice('how', [('A\n%\nB\nC\n', 'A\n!\nB\nC\n'), ('A\nB\nC\n', 'A\nB\n!\nC\n'), ('%\nA\nB\nC\n', 'A\nB\nC\n'), ('A\nB\nC\n%', 'A\nB\nC\n!'), ('A\nB\nC\n%', 'A\nB\nC\n%\n'), ('', '!'), ('%\n', '')])
    old, new = t.join(old.split('%')), t.join(u.join(new.split('!')).split('%')) if '%' in new else u.join(new.split('!'))
    judge(S, old, new, diff(S, old, new))


def name(S, n):
    """the name of the file is in both heads"""
    f = S.text('name', 0, n, ANY)
    old, new = S.choice('t', [('a\n', 'b\n'), ('', 'a\n'), ('a\n', ''), ('a', 'a')])
    judge(S, old, new, diff(S, old, new, f), 'old / ' + f, 'new / ' + f)


def message(S, k, n):
    """a README that is not up to date: the message leads from the file to the generated text"""
    kind, name = c23.KINDS[k], S.choice('name', c23.NAMES)
    result, old = S.text('result', 0, n, '[ab\n]'), S.text('old', 0, n, '[ab\n]')
    noted = S.bool('noted')
    before = old + c23.note(name, 86400) if noted else old
    if len(before) == 0 or old == result:
        return
    system = System(S, {'/p/' + name: ('utf-8', 'src'), c23.out_name(kind, name): ('utf-8', before)}, '', 'utf-8', 5)
    names, seen = c23.stubs(S, system, result)
    del names['unified_diff']
    r, err = c23.call(S, system, names, 'assert', kind, name)
    S.check(isinstance(err, AssertionError), 'a file that is not up to date does not pass the check')
    text = err.args[0]
    S.observe('message', text)
    f = c23.out_name(kind, name)[3:]
    p = text.find('--- ')
    S.check(text[:p].find(f) >= 0, 'the message names the file')
    if text.find('\n-``Note: ') < 0 and noted:      # the note is no part of the comparison
        before = old
    judge(S, before, result, text[p:], 'old / ' + f, 'new / ' + f)
