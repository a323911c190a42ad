"""C14: html2creole/rest/textile/markdown keep all text, with entities decoded."""
from harness import lib

BOUNDS = {
    'nest': 'every inline element in every other, in every block element, with every text of 1 to 2 (quick) / 1 to 4 (thorough) characters no markup uses '
            '(upper case letters and all non-ASCII characters but white space)',
    'blocks': 'every pair of block elements, with and without white space between them',
    'dec, hex': 'decimal references of up to 7 digits, hexadecimal ones of up to 6 digits in either case, in a paragraph',
    'named': 'all named references of HTML 4 and every unknown name of up to 4 characters',
    'broken': '67 forms of unclosed, stray and cut off tags, references and comments around texts of 1 to 2 / 1 to 3 characters',
    'apart': 'every two of 5 (quick) / 10 blocks or text in 9 containers around 4 / 8 others, every two of 10 in one container, with texts of 1 / 1 to 2 characters; '
             'a line break in 7 inline elements in these containers: the words do not become one',
    'free': 'every text of up to 4 / 5 characters without "<" (ampersands, digits, semicolons included)',
    'any': 'every text of up to 3 / 4 characters: no exception, and the characters outside of tags are kept',
}
# characters that no markup of the four languages is made of
T = r'[^\s\x00-\x40\x5b-\x7f\x80-\x9f]'
W = r'[^\s\x00-\x43K\x5b-\x7f\x80-\x9f]'  # without A, B and K
CONV = ['html2creole', 'html2rest', 'html2textile', 'html2markdown']
INLINE = ['%', '<strong>%</strong>', '<b>%</b>', '<i>%</i>', '<em>%</em>', '<tt>%</tt>', '<sup>%</sup>', '<sub>%</sub>', '<u>%</u>', '<small>%</small>', '<del>%</del>', '<strike>%</strike>',
          '<big>%</big>', '<code>%</code>', '<span>%</span>', '<ins>%</ins>', '<cite>%</cite>', '<a href="u">%</a>', '<a name="n">%</a>', '<font size="1">%</font>',
          '%<br />%', '%<br>%', '%<img src="i.png" alt="t" />%', '%&#65;%', '%&amp;%', '%<img src="data:x" />%', 'a <i>%</i> b', '%<!-- c -->%', '%<span></span>%', '<STRONG>%</STRONG>', '<a href="u" title="t">%</a>', '<abbr title="x">%</abbr>']
BLOCK = ['%', '<p>%</p>', '<h1>%</h1>', '<h3>%</h3>', '<h6>%</h6>', '<h9>%</h9>', '<ul>\n<li>%</li>\n<li>%</li>\n</ul>', '<ol><li>%</li></ol>', '<ul><li>%<ol><li>%</li></ol></li></ul>', '<ul><li>a</li><ul><li>%</li></ul></ul>',
         '<table>\n<tr>\n<th>%</th><td>%</td>\n</tr>\n</table>', '<table><tbody><tr><td>%</td></tr></tbody></table>', '<table><tr><td><table><tr><td>%</td></tr></table></td><td>%</td></tr></table>', '<div>%</div>', '<div><p>%</p></div>', '<blockquote>%</blockquote>', '<center>%</center>',
         '<p>%</p>\n<hr />', '<hr>%', '<dl><dt>%</dt><dd>%</dd></dl>', '<p>a\n%</p>', '<address>%</address>', '<ul><li><p>%</p></li></ul>', '<table><caption>%</caption><tr><td>%</td></tr></table>', '<p><strong><i>%</i></strong></p>']
BROKEN = ['<p>%<b>%', '%</b>%', '<p>%</i></p><p>%</p>', '<ul><li>%<li>%</ul>', '<li>%</li>', '%<li>%', '<td>%</td>%', '<tr>%</tr>%', '<th>%</th>', '<b>%</p>%', '%<', '%< %', '%<b', '%<b x="', '%<b x="a"', '%&', '%&am', '%&amp', '%&#', '%&#6', '%&#65', '%&#x', '%&#x4', '%</', '%</b', '%<!', '%<!-', '%<!--', '%<!-- c',
          '<!-- c -->%', '%<!DOCTYPE', '<!DOCTYPE html>%', '%<?pi', '<?pi>%', '%<!-- a --><!--', '<table><td>%</td></table>%', '<table>%</table>', '<table><tr>%</tr></table>', '</p>%', '</ul></ul>%', '</ul></ul><ul><li>%</li></ul>%', '<ol></ol>%', '</div></div>%<p>%</p>', '%< b%', '%& %', '%&&%', '%a&b%', '%&;%', '%&#;%',
          '<p>%<p>%', '<pre>%', '%</pre>%', '<h1>%', '%</h1>%', '<img>%', '<a>%</a>', '<a href>%</a>%', '<br/>%', '<hr>%', '<img src>%', '<b><i>%</b>%</i>', '<p><ul><li>%</p>%</ul>', '<>%', '%</>%', '<1>%', '<table><tr><td>%', '<table><tr><td>%</table>%', '<ul><li><b>%</li><li>%</li></ul>%', '<br></br>%', '</br>%']

PARTS = ['%', '<p>%</p>', '<div>%</div>', '<ul><li>%</li></ul>', '<h2>%</h2>', '<table><tr><td>%</td></tr></table>', '<ol><li>%</li></ol>', '<blockquote>%</blockquote>', '<pre>%</pre>', '<hr />']
PLACE = ['%', '<div>%</div>', '<ul><li>%</li></ul>', '<table><tr><td>%</td><td>K</td></tr></table>', '<blockquote>%</blockquote>', '<ul><li>A</li><li>%</li></ul>', '<table><tr><th>%</th></tr></table>',
         '<ol><li>B<ul><li>%</li></ul></li></ol>', '<dl><dd>%</dd></dl>']
LINES = ['%', '<p>%</p>', '<i>%</i>', '<a href="u">%</a>', '<h2>%</h2>', '<span>%</span>', '<span><b>%</b></span>']


def cases(tier):
    q = tier == 'quick'
    out = []
    for c in range(4):
        m = CONV[c][5:]
        out.append((m + '-nest', 'nest', c, 2 if q else 4))
        for i in range(6):
            out.append((m + '-double-%d' % i, 'double', c, 2 if q else 4, i))
        out.append((m + '-blocks', 'blocks', c, 1 if q else 2))
        out.append((m + '-dec', 'dec', c, 7))
        out.append((m + '-hex', 'hexa', c, 6))
        out.append((m + '-named', 'named', c))
        out.append((m + '-unknown', 'unknown', c, 4))
        out.append((m + '-broken', 'broken', c, 2 if q else 3))
        out.append((m + '-broken2', 'broken2', c, 2 if q else 3))
        for i in range(len(PLACE)):
            out.append((m + '-apart-%d' % i, 'apart', c, i, 1, 5 if q else 10, 5 if q else 9))
            out.append((m + '-beside-%d' % i, 'beside', c, i, 1 if q else 2))
        out.append((m + '-break', 'broke', c, 1 if q else 2, 5 if q else 9))
        out.append((m + '-free', 'free', c, 4 if q else 5))
        out.append((m + '-any', 'anything', c, 3 if q else 4))
        out.append((m + '-pre', 'pre', c, 4 if q else 6))
    return out


def run(S, c, html):
    out = getattr(S.load('creole'), CONV[c])(html)
    S.check(isinstance(out, str), 'a text is returned')
    S.observe('out', out)
    return out


def fill(S, form, n, name='t'):
    """the form with texts in its holes, and these texts joined"""
    bits = form.split('%')
    html, text = bits[0], ''
    for i, b in enumerate(bits[1:]):
        x = S.text('%s%d' % (name, i), 1, n if i == 0 else 1, T)
        html += x + b
        text += x
        if '#65;' in b:
            text += 'A'
    return html, text


def kept(S, c, html, text):
    out = run(S, c, html)
    if CONV[c] == 'html2rest':
        # links and images in tables are named by their text, which the definition below it repeats (C17)
        out = '\n\n'.join([p for p in out.split('\n\n') if not p.startswith('.. _') and not p.startswith('.. |')])
    S.check(S.keep(out, T) == text, 'the text is kept: complete, once and in order')
    return out


def nest(S, c, n):
    b, i = S.choice('block', BLOCK), S.choice('inline', INLINE)
    html, text = fill(S, b.replace('%', i), n)
    kept(S, c, html, text)


def double(S, c, n, k):
    step = (len(INLINE) + 5) // 6
    i, j = S.choice('outer', INLINE[k * step:(k + 1) * step]), S.choice('inner', INLINE)
    b = S.choice('block', ['%', '<p>%</p>', '<ul><li>%</li></ul>', '<table><tr><th>%</th></tr></table>'])
    bits = i.split('%')
    html, text = fill(S, b.replace('%', i.replace('%', 'a' + j, 1)), n)
    kept(S, c, html, text)


def blocks(S, c, n):
    a, b = S.choice('a', BLOCK), S.choice('b', BLOCK)
    sep = S.choice('sep', ['', ' \n\n\t'])
    h1, t1 = fill(S, a, n, 't')
    h2, t2 = fill(S, b, n, 'u')
    kept(S, c, h1 + sep + h2, t1 + t2)


def apart(S, c, k, n, m, places):
    """two blocks, or a block and text"""
    two(S, c, PLACE[k].replace('%', S.choice('place', PLACE[1:places])), n, PARTS[:m], [''])


def beside(S, c, k, n):
    two(S, c, PLACE[k], n, PARTS, [''] if n == 1 else ['', '\n', ' '])


def two(S, c, f, n, parts, seps):
    a, b = S.choice('a', parts), S.choice('b', parts)
    if a == '%' and b == '%':
        return
    x, y = S.text('x', 1, n, W), S.text('y', 1, n, W)
    separate(S, c, f, a.replace('%', x) + S.choice('sep', seps) + b.replace('%', y), x, y)


def broke(S, c, n, places):
    x, y = S.text('x', 1, n, W), S.text('y', 1, n, W)
    f = S.choice('place', PLACE).replace('%', S.choice('inner', PLACE[:places]))
    separate(S, c, f, S.choice('line', LINES).replace('%', x + S.choice('br', ['<br />'] if n == 1 else ['<br />', '<br>', '<BR/>\n']) + y), x, y)


def separate(S, c, f, inner, x, y):
    out = run(S, c, f.replace('%', inner))
    S.check(S.no((x + y) in out), 'words of two blocks do not become one')
    for w in 'ABK':
        if w in f:
            S.check(S.no((w + x) in out) and S.no((y + w) in out), 'words of two blocks do not become one')


def valid(v):
    return v <= 0x10FFFF and (v < 0xD800 or v > 0xDFFF)


def dec(S, c, n):
    d = S.text('d', 1, n, '[0-9]')
    v = int(d)
    out = run(S, c, '<p>A&#' + d + ';B</p>')
    S.check(out == ('A' + chr(v) + 'B' if valid(v) else 'A&#' + d + ';B'), 'the character of that number')


def hexa(S, c, n):
    d = S.text('d', 1, n, '[0-9a-fA-F]')
    x = S.choice('x', 'xX')
    v = int(d, 16)
    out = run(S, c, 'A<b>A&#' + x + d + ';B</b>')
    mark = ['**', '**', '**', '**'][c]
    S.check(out == 'A' + mark + ('A' + chr(v) + 'B' if valid(v) else 'A&#' + x + d + ';B') + mark, 'the character of that number')


def named(S, c):
    from html.entities import name2codepoint
    name = S.choice('name', sorted(name2codepoint))
    x, y = S.text('x', 0, 2, T), S.text('y', 0, 2, T)
    out = run(S, c, '<p>A' + x + '&' + name + ';' + y + 'B</p>')
    S.check(out == 'A' + x + (' ' if name == 'nbsp' else chr(name2codepoint[name])) + y + 'B', 'the character of that name')


def unknown(S, c, n):
    name = S.text('name', 1, n, '[a-zA-Z]')
    x = S.text('x', 0, 1, T)
    from html.entities import name2codepoint
    for k in sorted(name2codepoint):
        if len(k) <= n:
            S.require(S.no(name == k))
    end = S.choice('end', [';', ' ', ''])
    out = run(S, c, '<p>A &' + name + end + x + 'B</p>' if end else '<p>B' + x + ' A &' + name + '</p>')
    S.check(('&' + name) in out, 'an unknown name stays readable')
    S.check(S.keep(out, T) == S.keep('A' + name + x + 'B' if end else 'B' + x + 'A' + name, T), 'the text is kept')


def order(S, out, texts):
    """each of the texts once, in any order (what is open or stray may move)"""
    if not texts:
        return out == ''
    for i in range(len(texts)):
        n = len(texts[i])
        if out[:n] == texts[i] and order(S, out[n:], texts[:i] + texts[i + 1:]):
            return True
    return False


def parts(S, form, n):
    bits = form.split('%')
    html, texts = bits[0], []
    for i, b in enumerate(bits[1:]):
        x = 'QWZ'[i] + S.text('t%d' % i, 0, n - 1, T)
        html += x + b
        texts.append(x + ('A' if '#65;' in b else ''))
    return html, texts


def broken(S, c, n):
    html, texts = parts(S, S.choice('form', BROKEN), n)
    S.check(order(S, S.keep(run(S, c, html), T), texts), 'the text is kept: complete and once')


def broken2(S, c, n):
    """in a document"""
    f = S.choice('form', [b for b in BROKEN if b[-1] in '%>;'])
    pre, post = S.choice('in', [('<p>', '</p>'), ('<p>X</p>\n', '\n<p>Y</p>'), ('<ul><li>', '</li><li>Y</li></ul>'), ('<table><tr><td>', '</td><td>Y</td></tr></table>'), ('<div><p>X</p>', '</div><p>Y</p>')])
    html, texts = parts(S, f, n)
    out = run(S, c, pre + html + post)
    S.check(order(S, S.keep(out, T), texts + (['X'] if 'X' in pre else []) + (['Y'] if 'Y' in post else [])), 'the text is kept: complete and once')


def free(S, c, n):
    """nothing but text and references"""
    t = S.text('t', 0, n, r'[^<]')
    out = run(S, c, '<p>A' + t + '</p>')
    for i in range(len(t)):
        # references are looked at in the cases above
        if t[i] == '&' and i + 1 < len(t):
            S.require(S.no(S.matches('[#a-zA-Z]', t[i + 1])))
    S.check(S.keep(out, r'[^\s&;]') == S.keep('A' + t, r'[^\s&;]'), 'the text is kept: complete, once and in order')


def anything(S, c, n):
    t = S.text('t', 0, n, lib.ANY)
    post = S.choice('post', ['', '</p>', '<b>'])
    out = run(S, c, '<p>A' + t + post)
    S.check('A' in out, 'the text before it is kept')


def pre(S, c, n):
    x = S.text('x', 0, n, '[^<&]')
    f = S.choice('f', ['<pre>%</pre>', '<p>a</p>\n<pre>\n%\n</pre>\n<p>B</p>', '<p>a <pre>%</pre> B</p>', '<PRE>%</PRE>', '<ul><li><pre>%</pre></li></ul>', '<pre>%</pre><pre>%</pre>'])
    out = run(S, c, x.join(f.split('%')))
    S.check(S.keep(out, T) == S.keep(x, T) * (f.count('%')) + ('B' if 'B' in f else ''), 'the text is kept: complete, once and in order')
