"""C16: HTML tables come out complete and aligned in all four markups."""
from harness import lib
from harness.wide import WIDE

BOUNDS = {
    'shape': 'every table of up to 3 rows of 0 to 3 cells (thorough: 4 rows), each td or th, empty or with texts of different lengths (from 3 rows on: 2 kinds of cells)',
    'text': 'tables of 2 x 2 cells, td or th, one or two with every text of up to 4 (quick) / 6 (thorough) characters (blanks inside, wide characters included; not "|", "<", "&")',
    'inner': 'cells with 14 inline and block elements around texts of up to 3 / 5 characters, line breaks and several paragraphs',
    'place': 'a table before, after, between and directly beside other blocks and tables, nested tables, tbody, tables without tr',
}
CONV = ['html2creole', 'html2rest', 'html2textile', 'html2markdown']
# no white space, no markup, no reference
C1 = r'[^\s<&|=_*#\\+:.-]'
CC = r'[^<&|\\\s]'


def cases(tier):
    q = tier == 'quick'
    out = []
    for c in range(4):
        m = CONV[c][5:]
        for n in range(0, 4 if q else 5):
            out.append((m + '-shape-%d' % n, 'shape', c, n, 0 if q else 1))
        for i in range(4):
            out.append((m + '-text-%d' % i, 'text', c, 4 if q else 6, i))
        out.append((m + '-wide', 'wide_cell', c, 2 if q else 3))
        out.append((m + '-inner', 'inner', c, 3 if q else 5))
        out.append((m + '-place', 'place', c, 2 if q else 3))
    return out


def table(rows, i=0):
    """HTML of rows of (kind, html)"""
    if i == 0:
        return '<table>\n' + ''.join(['<tr>\n' + ''.join(['\t<' + k + '>' + t + '</' + k + '>\n' for k, t in r]) + '</tr>\n' for r in rows]) + '</table>'
    return '<table class="x"><tbody>' + ''.join(['<tr>' + ''.join(['<' + k + ' align="left"> ' + t + ' </' + k + '>' for k, t in r]) + '</tr>' for r in rows]) + '</tbody></table>'


def blank(S, x):
    S.check(S.matches(' *', x), 'nothing but padding around a cell')


def cell(S, x, text, what):
    """x is the text with blanks around it"""
    if text == '':
        return blank(S, x)
    for i in range(len(x)):
        if S.no(x[i] == ' '):
            break
    S.check(x[i:i + len(text)] == text, what)
    blank(S, x[i + len(text):])


def wide(S, c):
    """columns of a character"""
    return 2 if S.has(c, WIDE) else 1


def columns(S, x):
    return sum([wide(S, ch) for ch in x])


def split(S, line, marks='|'):
    """the pieces between the bars"""
    out, cur = [], ''
    for ch in line:
        if ch == marks:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return out


def read(S, c, out, rows, texts=None):
    """check the lines of the table against rows of (kind, text)"""
    lines = split(S, out, '\n')
    cols = max([len(r) for r in rows] + [0])
    heads = any([k == 'th' for r in rows for k, t in r])
    name = CONV[c][5:]
    if name == 'rest':
        grid = lines[::2]
        body = lines[1::2]
        S.check(len(grid) == len(body) + 1, 'a grid line above, below and between the rows')
        for i in range(len(grid)):
            mark = '=' if i == 1 and heads and i < len(rows) else '-'
            bits = split(S, grid[i], '+')
            S.check(len(bits) == cols + 2 and bits[0] == '' and bits[-1] == '', 'corners at every column')
            for b in bits[1:-1]:
                S.check(len(b) > 0 and S.matches(mark + '*', b), 'the grid, with a separator only below the header')
        lines = body
        widths = [len(b) for b in bits[1:-1]]
    elif name == 'markdown':
        if heads:
            S.check(len(lines) > 1, 'a separator below the header')
            sep = split(S, lines[1])
            S.check(len(sep) == cols + 2 and sep[0] == '' and sep[-1] == '', 'the separator of each column')
            for b in sep[1:-1]:
                S.check(S.matches(' -+ ', b), 'the separator of a column')
            widths = [len(b) for b in sep[1:-1]]
            lines = lines[:1] + lines[2:]
        else:
            widths = [len(b) for b in split(S, lines[0])[1:-1]]
    else:
        widths = [len(b) for b in split(S, lines[0])[1:-1]]
    S.check(len(lines) == len(rows), 'one line per row')
    for line, row in zip(lines, rows):
        bits = split(S, line)
        S.check(bits[0] == '' and bits[-1] == '', 'bars at both ends')
        bits = bits[1:-1]
        if name != 'textile':
            S.check(len(bits) == cols, 'all cells')
            S.check([columns(S, b) if name == 'rest' else len(b) for b in bits] == widths, 'aligned columns')
        else:
            S.check(len(bits) == max(len(row), 1), 'all cells')
        for i in range(len(bits)):
            k, t = row[i] if i < len(row) else ('td', '')
            b = bits[i]
            if k == 'th' and name == 'textile':
                S.check(b[:3] == '_. ', 'marked as a header')
                b = b[3:]
            elif k == 'th' and name == 'creole':
                j = 1 if b[:1] == ' ' else 0
                S.check(b[j:j + 1] == '=', 'marked as a header')
                b = b[j + 1:]
            cell(S, b, t, 'the text of the cell, in its row and column')


def conv(S, c, html):
    out = getattr(S.load('creole'), CONV[c])(html)
    S.observe('out', out)
    return out


KINDS = [('td', 1), ('th', 2), ('td', 0), ('td', 3), ('th', 0)]


def shape(S, c, n, more):
    kinds = KINDS[:5 if n == 1 else (3 if n == 2 else 2) + (more if n < 3 else 0)]
    rows = []
    for r in range(n):
        m = S.int('m%d' % r, 0, 3 if n < 4 else 2)
        row = []
        for i in range(m):
            k, l = S.choice('k%d%d' % (r, i), kinds)
            row.append((k, S.text('t%d%d' % (r, i), l, l, r'[A-Z]')))
        rows.append(row)
    if not any(rows):
        out = conv(S, c, 'A' + table(rows) + 'B')
        S.check(S.keep(out, '[A-Z]') == 'AB', 'nothing to show')
        return
    read(S, c, conv(S, c, table(rows, len(rows[0]) % 2)), rows)


def text(S, c, n, i):
    """one cell of any text"""
    k = S.choice('k', ['td', 'th'])
    t = S.text('x', 1, 1, C1) + S.text('t', 0, n - 2, CC + '' if not i else '[^<&|\\\\\\n\\t\\r\\x0b-\\x1f\\x85\\u2028\\u2029]') + S.text('y', 1, 1, C1)
    if i:
        # blanks: single and inside
        for j in range(len(t) - 1):
            S.require(S.no(S.has(t[j], r'\s')) or (t[j] == ' ' and S.no(S.has(t[j + 1], r'\s'))))
    rows = [[('td', 'a'), ('th', 'bcd')], [('th', 'efghijk'), ('td', '')]]
    j = i % 4
    rows[j // 2][j % 2] = (k, t)
    read(S, c, conv(S, c, table(rows)), rows)


def wide_text(S, name, n):
    return S.text(name, 1, n, WIDE)


def wide_cell(S, c, n):
    t, u = wide_text(S, 't', n), S.text('u', 1, n, C1)
    k = S.choice('k', ['td', 'th'])
    rows = S.choice('rows', [0, 1, 2])
    rows = [[[(k, t + u), ('td', 'a')], [('td', 'bcd'), ('td', t)]], [[(k, u), (k, t)], [('td', t), ('td', 'efghi')]], [[(k, t)], [(k, u), ('td', t)]]][rows]
    read(S, c, conv(S, c, table(rows)), rows)


INNER = [('%', '%', '%', '%', '%'), ('<b>%</b>', '**%**', '**%**', '**%**', '**%**'), ('<em>%</em>', '//%//', '*%*', '_%_', '_%_'), ('a <code>%</code>', 'a {{{%}}}', 'a ``%``', 'a @%@', 'a `%`'), ('<p>%</p>', '%', '%', '%', '%'), ('<div>%</div>', '%', '%', '%', '%'),
         ('%<br />b', '%\0b', '%\0b', '%\0b', '%\0b'), ('<p>%</p><p>b</p>', '%\0b', '%\0b', '%\0b', '%\0b'), ('<p>%</p>\n<p>b</p>\n', '%\0b', '%\0b', '%\0b', '%\0b'), ('<br>%<br>', '%', '%', '%', '%'), ('a\n%', 'a %', 'a %', 'a %', 'a %'),
         ('<a href="u">%</a>', '[[u\1%]]', '`%`_', '"%":u', '[%](u)'), ('<span>%</span>', '%', '%', '%%%', '%'), ('a<br>%<br><br>b', 'a\0%\0b', 'a\0%\0b', 'a\0%\0b', 'a\0%\0b')]


def inner(S, c, n):
    f = S.choice('form', INNER)
    t = S.text('t', 1, n, '[^\\x00\\x01`A-Za-z"\'\\[\\]{}()/~^' + C1[2:])
    k = S.choice('k', ['td', 'th'])
    if CONV[c] == 'html2textile' and f[0].startswith('<span'):
        m = '%' + t + '%'
    else:
        m = t.join(f[1 + c].split('%'))
    br = '<br>' if c == 3 else '\\\\'
    rows = [[('td', 'x'), (k, t.join(f[0].split('%')))], [('td', 'yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy')]]
    exp = [[rows[0][0], (k, m.replace('\0', br))], rows[1]]
    out = conv(S, c, table(rows, S.int('html', 0, 1)))
    if c == 1 and 'href' in f[0]:
        a, b = out.split('\n\n')
        S.check(b == '.. _' + t + ': u', 'the target of the link')
        out = a
    if '\1' in m:
        out, exp[0][1] = out.replace('u|', 'u\1', 1), (k, m)
    read(S, c, out, exp)


def place(S, c, n):
    t, u = S.text('t', 1, n, C1), S.text('u', 1, 1, C1)
    k = S.choice('k', ['td', 'th'])
    rows = [[(k, t), (k, u)], [('td', u), ('td', t)]]
    pre = S.choice('pre', ['', '<p>X</p>', '<p>X</p>\n', '<h2>X</h2>\n', '<ul><li>X</li></ul>', table([[('td', 'X')]]) + '\n', '<hr />', 'X'])
    post = S.choice('post', ['', '<p>Y</p>', '\n<p>Y</p>', '\n<h2>Y</h2>', '<ul><li>Y</li></ul>', '\n' + table([[('td', 'Y')]]), '<hr />', 'Y'])
    out = conv(S, c, pre + table(rows, S.int('html', 0, 1)) + post)
    lines = split(S, out, '\n')
    # the lines with the cells
    mark = '+' if c == 1 else '|'
    blocks, cur = [], []
    for line in lines:
        if line[:1] == '|' or line[:1] == mark:
            cur.append(line)
        else:
            if cur:
                blocks.append(cur)
            cur = []
    if cur:
        blocks.append(cur)
    i = 1 if 'table' in pre else 0
    S.check(len(blocks) == i + (2 if 'table' in post else 1), 'each table on its own')
    if i:
        read(S, c, '\n'.join(blocks[0]), [[('td', 'X')]])
    read(S, c, '\n'.join(blocks[i]), rows)
    if 'table' in post:
        read(S, c, '\n'.join(blocks[i + 1]), [[('td', 'Y')]])
