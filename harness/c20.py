"""C20: strip_html changes white space only, and never inside pre."""
from harness import lib

BOUNDS = {
    'around': 'text, tag, text, tag, text with every text of up to 3 (quick) / 4 (thorough) characters (white space of every kind and every other character but "<", ">"), every pair of 9 inline and block tags',
    'tags': 'up to 3 / 4 tags in a row with text between',
    'names': 'every tag name of up to 8 / 11 characters, inline or block as HTML has it',
    'value': 'tags with every attribute value of up to 4 / 6 characters between text',
    'plain': 'every text without tags of up to 5 / 7 characters',
    'clean': 'clean_whitespace on every text of up to 5 / 7 blanks, line ends, tabs and letters, and every white space of up to 3 / 4 characters around a text',
    'exact': 'the place of the blank for every pair of white space before and after one inline tag',
    'pre': 'every content of pre of up to 3 / 5 characters in 8 surroundings, in all four markups',
}
INLINE = ['<i>', '</i>', '<b k="v  w">', '</B>', '<img src="a" />', '<x/>', '<y z>', '<!-- c -->']
BLOCK = ['<p>', '</p>', '<div k="v">', '</TD>', '<br />', '<hr>', '<br/>', '</h2>', '<UL>', '<li >']
T = r'[^<>\S]'
CONV = ['html2creole', 'html2rest', 'html2textile', 'html2markdown']


def cases(tier):
    q = tier == 'quick'
    out = []
    for i in range(len(SHAPES)):
        out.append(('around-%d' % i, 'around', i, 2 if q else 3))
    for i in range(len(SHAPES)):
        out.append(('wide-%d' % i, 'wide', i, 1 if q else 2))
    for n in range(1, 4 if q else 5):
        out.append(('tags-%d' % n, 'tags', n, 1 if n < 4 else 0))
    out.append(('names', 'names', 8 if q else 11))
    out.append(('value', 'value', 4 if q else 6))
    out.append(('plain', 'plain', 5 if q else 7))
    out.append(('again', 'again', 2 if q else 3))
    out.append(('exact', 'exact', 2))
    out.append(('clean', 'clean', 5 if q else 7))
    out.append(('clean-long', 'clean_long', 3 if q else 4))
    out.append(('lone', 'lone', 3 if q else 4))
    for c in range(4):
        out.append(('pre-%d' % c, 'pre', c, 3 if q else 4))
    return out


def strip(S, html):
    out = S.load('creole.html_tools.strip_html').strip_html(html)
    S.observe('out', out)
    return out


def ws(S, ch):
    return S.has(ch, r'\s')


def check(S, pieces):
    """pieces: texts and tags in turn, a text first"""
    html = ''
    for i in range(len(pieces)):
        html += pieces[i]
    out = strip(S, html)
    i, n = 0, len(out)
    blank = gap = block = False      # between the words: in the source, in the output; a block tag
    seen = False                     # a word before
    prev = 'block'
    for k in range(len(pieces)):
        if k % 2:
            tag = pieces[k]
            here = False
            while i < n and ws(S, out[i]):
                here = True
                i += 1
            is_block = tag in BLOCK
            gap = gap or here
            if is_block and prev != 'inline':
                S.check(not here, 'no white space before a block tag')
            S.check(out[i:i + len(tag)] == tag, 'the tag stays as it is')
            i += len(tag)
            block = block or is_block
            prev = 'block' if is_block else 'inline'
        else:
            for ch in pieces[k]:
                if ws(S, ch):
                    blank = True
                    continue
                here = False
                while i < n and ws(S, out[i]):
                    here = True
                    i += 1
                gap = gap or here
                S.check(i < n and out[i] == ch, 'every other character stays')
                i += 1
                if seen and not block:
                    S.check(blank == gap, 'words are apart as they were')
                if prev == 'block':
                    S.check(not here, 'no white space behind a block tag')
                blank = gap = block = False
                prev = 'word'
                seen = True
    S.check(i == n or prev == 'inline' and ws(S, out[i:]), 'nothing is added, no white space at the end')


SHAPES = [('i', 'i'), ('i', 'b'), ('b', 'i'), ('b', 'b')]


def tag(S, name, kind):
    return S.choice(name, INLINE if kind == 'i' else BLOCK)


def around(S, i, n):
    x, y = tag(S, 'x', SHAPES[i][0]), tag(S, 'y', SHAPES[i][1])
    t, u, v = S.text('t', 0, n, r'[ \n\ta]'), S.text('u', 0, n, r'[ \n\ta]'), S.text('v', 0, 1, r'[ \na]')
    check(S, [t, x, u, y, v])


def wide(S, i, n):
    """every white space and every character"""
    x, y = S.choice('x', INLINE[:2] if SHAPES[i][0] == 'i' else BLOCK[:2]), S.choice('y', INLINE[:5:4] if SHAPES[i][1] == 'i' else BLOCK[1:5:3])
    t, u, v = S.text('t', 0, n, r'[^<>]'), S.text('u', 0, n, r'[^<>]'), S.text('v', 0, n, r'[^<>]')
    check(S, ['A' + t, x, u, y, v + 'B'])


def tags(S, k, n):
    out = ['A' if S.bool('first') else '']
    for j in range(k):
        out.append(S.choice('tag%d' % j, ['<i>', '</i>', '<x />', '<p>', '</p>', '<br />']))
        out.append(S.text('t%d' % j, 0, n, r'[ a]') if n else S.choice('t%d' % j, ['', ' ', 'a']))
    check(S, out)


# what stands in no text line
BLOCKS = 'address|blockquote|center|dir|div|dl|fieldset|form|h[1-6]|hr|isindex|men|noframes|noscript|ul|ol|li|table|th|tr|td|p|pre|br'


def names(S, n):
    """inline or block"""
    t = S.text('name', 1, n, '[A-Za-z0-9:-]')
    S.require(S.has(t[:1], '[A-Za-z]'))
    form = S.choice('form', ['A <%>B</%> C', 'A<% k="v"> B </%>C', 'A <%/> B'])
    out = strip(S, t.join(form.split('%')))
    if S.matches(BLOCKS, t.lower()):
        exp = ['A<%>B</%>C', 'A<% k="v">B</%>C', 'A<%/>B']
    else:
        exp = ['A <%>B</%> C', 'A <% k="v">B</%> C', 'A <%/> B']
    S.check(out == t.join(exp[0 if 'k' not in form and '/>' not in form else 1 if 'k' in form else 2].split('%')), 'blanks stand around inline elements only')


def value(S, n):
    """values of attributes are no concern"""
    form, no = S.choice('form', [('<x k="%">', '"'), ("<x k='%'>", "'"), ('<x j k = "%" l="m" />', '"'), ('<p k="%">', '"'), ('</x>', ''), ('<x k=% >', '"\'=/>'), ('<x l=m k="%"/>', '"')])
    v = S.text('v', 0 if no != '"\'=/>' else 1, n, r'[^\n' + no + (r'\s' if '=%' in form else '') + ']') if no else ''
    a, b = S.choice('a', ['', ' ']), S.choice('b', ['', ' '])
    out = strip(S, 'A' + a + v.join(form.split('%')) + b + 'B')
    t = v.join(form.split('%'))
    if form[1] == 'p':
        return S.check(out == 'A' + t + 'B', 'the tag stays as it is')
    S.check(out[0] == 'A' and out[len(out) - 1] == 'B' and t in out, 'the tag stays as it is')
    S.check(len(out) == len(t) + 2 + (1 if a + b else 0) or (form[-2] == '/' and len(out) == len(t) + 2 + len(a + b)), 'the words are apart as they were')


def plain(S, n):
    """without a tag"""
    t = S.text('t', 0, n, r'[ \n\t\xa0a>/=;&"]')
    out = strip(S, t)
    want, lead = '', False
    # lines without white space at their ends, a blank for each line end
    lines = t.strip().split('\n')
    for i in range(len(lines)):
        want += ('' if i == 0 else ' ') + lines[i].strip()
    S.check(out == want, 'a blank for a line end and the white space around it')


def clean(S, n):
    cleaned(S, S.text('t', 0, n, r'[ \n\t\xa0a]'))


def clean_long(S, n):
    a, b = S.text('a', 0, n, r'\s'), S.text('b', 0, n, r'\s')
    cleaned(S, a + 'A' + S.text('t', 0, 2, '.') + 'B' + b)


def cleaned(S, t):
    """clean_whitespace: at the start one blank if there is one, at the end a line end, else a blank if there is one"""
    out = S.load('creole.html_tools.text_tools').clean_whitespace(t)
    S.observe('out', out)
    words = t.strip()
    lead = t[:len(t) - len(t.lstrip())]
    tail = t[len(t.rstrip()):] if len(words) else ''
    if '\n' in tail:
        tail = '\n'
    elif ' ' in tail:
        tail = ' '
    S.check(out == (' ' if ' ' in lead else '') + words + tail, 'only white space at the ends changes')


def lone(S, n):
    """a "<" that opens no tag is text"""
    t, u = S.text('t', 0, n, r'[ \n0-9<=>-]'), S.choice('u', ['', ' >', '> a', ' > b'])
    html = 'A <' + t + u
    S.require(S.no('\n' in t) or True)
    out = strip(S, html)
    x, y = '', ''
    for ch in html:
        if S.no(ws(S, ch)):
            x += ch
    for ch in out:
        if S.no(ws(S, ch)):
            y += ch
    S.check(x == y, 'every character stays')
    S.check(out == ' '.join([l.strip() for l in html.strip().split('\n')]), 'text is text')


def again(S, n):
    """cleaned twice is cleaned once, where no blanks stand next to inline tags"""
    x, y, z = S.choice('x', INLINE + BLOCK), S.choice('y', INLINE + BLOCK), S.choice('z', ['', '<p>', '</i>'])
    t, u = S.text('t', 1, n, r'[^<>]'), S.text('u', 1, n, r'[^<>]')
    for a in (t, u):
        if x not in BLOCK or y not in BLOCK:
            S.require(S.no(ws(S, a[0])))
            S.require(S.no(ws(S, a[len(a) - 1])))
    out = strip(S, t + x + u + y + z)
    S.check(strip(S, out) == out, 'cleaned twice is cleaned once')


def exact(S, n):
    a, b = S.text('a', 0, n, r'\s'), S.text('b', 0, n, r'\s')
    x = S.choice('x', INLINE)
    out = strip(S, 'A' + a + x + b + 'B')
    before, after = len(a) > 0, len(b) > 0
    if x[1] == '/':
        exp = 'A' + x + (' ' if before or after else '') + 'B'
    elif x[-2] == '/':
        exp = 'A' + (' ' if before else '') + x + (' ' if after else '') + 'B'
    else:
        exp = 'A' + (' ' if before or after else '') + x + 'B'
    S.check(out == exp, 'one blank outside of the element')


PRE = [('<pre>%</pre>', 0), ('<p>A</p>\n<pre>\n%\n</pre>\n<p>B</p>', 1), ('<p>A <pre>%</pre> B</p>', 0), ('<div>A</div><pre>%</pre>', 0), ('A\n<pre>\n%\n</pre>', 1), ('<p>A</p><pre>C</pre><pre>%</pre>', 0), ('<table><tr><td>A</td></tr></table>\n<pre>\n%\n</pre>\n<h2>B</h2>', 1),
       ('<pre>\n  C\n</pre>\n\n<pre>\n%\n</pre>', 1)]


def pre(S, c, n):
    """what is in pre is shown as it is"""
    form, is_block = S.choice('form', PRE)
    t = S.text('t', 0, n, r'[^<&\r]')
    out = getattr(S.load('creole'), CONV[c])(t.join(form.split('%')))
    S.observe('out', out)
    if not is_block:
        S.require(S.no(S.has(t[:1], r'\s')) or S.no('\n' in t))
    if c == 1 and is_block:
        # the lines of a literal block, indented; empty ones around it are layout
        lines = ('\n' + t + '\n').rstrip().split('\n')
        while lines and lines[0].strip() == '':
            lines = lines[1:]
        if lines:
            x = ''
            for l in lines:
                x += '\n    ' + l
            S.check('::\n' + x in out, 'every line with its indentation')
        return
    x = '\n' + t + '\n' if is_block else t
    o, e = [('{{{', '}}}'), ('<pre>', '</pre>'), ('<pre>', '</pre>'), ('```', '```')][c]
    S.check(o + x + e in out, 'the content is verbatim')
