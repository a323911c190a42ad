"""C21: character references decode to exactly their character."""
import html.entities

BOUNDS = {
    'number': 'every decimal number of up to 7 (quick) / 8 (thorough) digits between every text of one character',
    'hex': 'every hexadecimal number of up to 6 / 7 digits of either case',
    'long': 'numbers of up to 33 digits with 2 / 3 of them free',
    'name': 'all 252 names of HTML 4 and every other name of up to 4 / 6 letters and digits',
    'free': 'every text of up to 5 / 6 of the characters of references, and up to 8 with a reference in it',
    'once': 'references that give "&", "#", ";" or a digit next to every text of up to 4 / 5 characters that would go on with them',
    'document': 'references in text, table cells, list items, link texts, attributes and pre, in all four markups',
}
NAMES = sorted(html.entities.name2codepoint)
CONV = ['html2creole', 'html2rest', 'html2textile', 'html2markdown']
ANY = r'[^\ud800-\udfff]'


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in range(1, 8 if q else 9):
        out.append(('number-%d' % n, 'number', n))
    for n in range(1, 7 if q else 8):
        out.append(('hex-%d' % n, 'hexa', n))
    for i in range(len(LONG)):
        out.append(('long-%d' % i, 'long', i, 2 if q else 3))
    for i in range(6):
        out.append(('names-%d' % i, 'names', i))
    out.append(('name', 'name', 4 if q else 6))
    out.append(('free', 'free', 4 if q else 5))
    out.append(('around', 'around', 2 if q else 3))
    out.append(('once', 'once', 3 if q else 4))
    out.append(('single', 'single', 5 if q else 7))
    for c in range(4):
        m = CONV[c][5:]
        for i in range(len(PLACES)):
            out.append(('%s-number-%d' % (m, i), 'doc_number', c, i, 5 if q else 7))
            out.append(('%s-hex-%d' % (m, i), 'doc_hex', c, i, 4 if q else 6))
        out.append((m + '-names', 'doc_names', c))
        out.append((m + '-name', 'doc_name', c, 3 if q else 5))
        out.append((m + '-bad', 'doc_bad', c, 2 if q else 3))
        out.append((m + '-open', 'doc_open', c, 3 if q else 5))
        out.append((m + '-attr', 'doc_attr', c, 4 if q else 6))
    return out


def all_(S, t):
    out = S.load('creole.html_tools.deentity').Deentity().replace_all(t)
    S.observe('out', out)
    return out


def number_of(S, digits, base):
    n = 0
    for d in digits:
        k = ord(d)
        if base == 16 and k > 96:
            k -= 87
        elif base == 16 and k > 64:
            k -= 55
        else:
            k -= 48
        n = n * base + k
    return n


def char(S, n, raw):
    """the character of this number, or what stands there if there is none"""
    if n > 0x10FFFF:
        return raw
    if n >= 0xD800 and n <= 0xDFFF:
        return raw
    return chr(n)


def number(S, n):
    d = S.text('d', n, n, '[0-9]')
    a, b = S.text('a', 0, 1, ANY), S.text('b', 0, 1, ANY)
    raw = '&#' + d + ';'
    S.check(all_(S, a + raw + b) == a + char(S, number_of(S, d, 10), raw) + b, 'the character of the number')


def hexa(S, n):
    d = S.text('d', n, n, '[0-9a-fA-F]')
    x = S.choice('x', ['x', 'X'])
    a, b = S.text('a', 0, 1, ANY), S.text('b', 0, 1, ANY)
    raw = '&#' + x + d + ';'
    S.check(all_(S, a + raw + b) == a + char(S, number_of(S, d, 16), raw) + b, 'the character of the hexadecimal number')


# longer numbers: what is before and behind its free digits
LONG = [(10, '0' * 8, ''), (10, '1', '0000065'), (10, '', '0000000'), (10, '', '00000000000065'), (10, '0' * 30, '5'), (10, '429496', '365'),
        (16, '0' * 8, ''), (16, '1', '000041'), (16, '', '0000000'), (16, '1', '00000000000041'), (16, '0' * 30, '1'), (16, '10000', '41'), (16, '00110', '')]


def long(S, i, n):
    base, a, b = LONG[i]
    d = a + S.text('d', n, n, '[0-9]' if base == 10 else '[0-9a-fA-F]') + b
    raw = '&#' + ('x' if base == 16 else '') + d + ';'
    S.check(all_(S, raw) == char(S, number_of(S, d, base), raw), 'the character of the long number')


def named(n):
    # HTML 4 has other brackets than HTML 5
    return {'nbsp': ' ', 'lang': '\u2329', 'rang': '\u232a'}.get(n) or html.entities.html5[n + ';']


def names(S, i):
    n = S.choice('name', NAMES[i::6])
    a, b = S.text('a', 0, 1, ANY), S.text('b', 0, 1, ANY)
    S.check(all_(S, a + '&' + n + ';' + b) == a + named(n) + b, 'the character of the name')


def known(S, n):
    for k in NAMES:
        if n == k:
            return k
    return None


def name(S, n):
    t = S.text('name', 1, n, '[a-zA-Z0-9]')
    k = known(S, t)
    S.check(all_(S, 'A&' + t + ';B') == ('A' + named(k) + 'B' if k is not None else 'A&' + t + ';B'), 'an unknown name stays')


def decode(S, t):
    """one pass from the left"""
    out, i, n = '', 0, len(t)
    while i < n:
        if t[i] == '&':
            j = i + 1
            base = 0
            if j < n and t[j] == '#':
                j += 1
                base = 10
                if j < n and S.has(t[j], '[xX]'):
                    j += 1
                    base = 16
            s = j
            if base:
                while j < n and S.has(t[j], '[0-9]' if base == 10 else '[0-9a-fA-F]'):
                    j += 1
            elif j < n and S.has(t[j], '[a-zA-Z]'):
                while j < n and S.has(t[j], '[a-zA-Z0-9]'):
                    j += 1
            if j > s and j < n and t[j] == ';':
                raw = t[i:j + 1]
                if base:
                    out += char(S, number_of(S, t[s:j], base), raw)
                else:
                    k = known(S, t[s:j])
                    out += raw if k is None else named(k)
                i = j + 1
                continue
        out += t[i]
        i += 1
    return out


def free(S, n):
    t = S.text('t', 0, n, '[&#xX;0-9aAglt]')
    S.check(all_(S, t) == decode(S, t), 'every complete reference once, nothing else')


def around(S, n):
    a, b = S.text('a', 0, n, '[&#x;0-9alt]'), S.text('b', 0, n, '[&#x;0-9alt]')
    m = S.choice('m', ['&lt;', '&#38;', '&#x26;', '&amp;', '&foo;', '&#1114112;', '&#xD800;', '&#55296;', '&', '&#', '&#x', ';', '&l', '&;', '&#;', '&#x;'])
    S.check(all_(S, a + m + b) == decode(S, a + m + b), 'every complete reference once, nothing else')


def once(S, n):
    m, c = S.choice('m', [('&amp;', '&'), ('&#38;', '&'), ('&#x26;', '&'), ('&#0038;', '&'), ('&#35;', '#'), ('&#59;', ';'), ('&lt;', '<')])
    t = S.text('t', 0, n, '[#xX;0-9altgmp]')
    S.check(all_(S, m + t) == c + t, 'what a reference gives is not decoded again')
    S.check(all_(S, '&#6' + m + t)[:4] == '&#6' + c, 'what a reference gives is not decoded again')


def single(S, n):
    """the methods for one reference"""
    D = S.load('creole.html_tools.deentity').Deentity()
    if S.bool('hex'):
        d = S.text('d', 1, min(n, 5), '[0-9a-fA-F]')
        k = number_of(S, d, 16)
        f = D.replace_hex
    else:
        d = S.text('d', 1, n, '[0-9]')
        k = number_of(S, d, 10)
        f = D.replace_number
    try:
        out = f(d)
    except ValueError:
        return S.check(char(S, k, '') == '', 'ValueError only for no character')
    S.check(out == char(S, k, ''), 'the character of the number')


# html, what creole, rest, textile, markdown make of it
PLACES = [('<p>A%B</p>', 'A%B', 'A%B', 'A%B', 'A%B'), ('A%B', 'A%B', 'A%B', 'A%B', 'A%B'), ('<ul><li>A%B</li></ul>', '* A%B', '* A%B', '* A%B', '* A%B'), ('<p><b>A%B</b></p>', '**A%B**', '**A%B**', '**A%B**', '**A%B**'),
          ('<p><pre>A%B</pre></p>', '{{{A%B}}}', '<pre>A%B</pre>', '<pre>A%B</pre>', '```A%B```'), ('<table><tr><td>A%B</td></tr></table>', '| A%B |', None, '|A%B|', '| A%B |'), ('<x>A%B</x>', 'A%B', 'A%B', 'A%B', 'A%B')]


def conv(S, c, t):
    out = getattr(S.load('creole'), CONV[c])(t)
    S.observe('out', out)
    return out


def put(form, x):
    return x.join(form.split('%'))


def place(S, c, i, raw, x):
    form = PLACES[i]
    if form[1 + c] is None:
        return S.check(True, 'grids: C16')
    S.check(conv(S, c, put(form[0], raw)).strip('\n') == put(form[1 + c], x), 'the character, and nothing else changed')


def simple(S, x, i):
    """a character without a meaning for lines or the markup at this place"""
    if len(x) == 1:
        S.require(S.no(S.has(x, r'[\s\x00-\x1f\x85|]')))


def doc_number(S, c, i, n):
    d = S.text('d', n - 1 if n > 5 else 1, n, '[0-9]')
    raw = '&#' + d + ';'
    x = char(S, number_of(S, d, 10), raw)
    simple(S, x, i)
    place(S, c, i, raw, x)


def doc_hex(S, c, i, n):
    d = S.text('d', 1, n, '[0-9a-fA-F]')
    raw = '&#' + S.choice('x', ['x', 'X']) + d + ';'
    x = char(S, number_of(S, d, 16), raw)
    simple(S, x, i)
    place(S, c, i, raw, x)


def doc_names(S, c):
    k = S.choice('name', NAMES)
    x = named(k)
    i = S.choice('i', [0, 2, 4])
    if x == ' ' or S.has(x, r'\s'):
        i = 0
    place(S, c, i, '&' + k + ';', x)


def doc_name(S, c, n):
    t = S.text('name', 1, n, '[a-zA-Z0-9]')
    S.require(S.has(t[:1], '[a-zA-Z]'))
    S.require(known(S, t) is None)
    out = conv(S, c, '<p>A &' + t + '; B</p>')
    S.check(S.matches('A &' + '[a-zA-Z0-9]*;? B', out) and '&' + t in out, 'an unknown name stays readable')


def doc_bad(S, c, n):
    """what is no reference is text"""
    raw = S.choice('raw', ['&', '& ', '&;', '&#;', '&#x;', '&#xg;', '&-', '&#-1;', '&1;'])
    # a name without a semicolon may be one for HTML
    t = S.text('t', 0, n, r'[A-Z ]' if raw != '&' else '[0-9 ]')
    u = S.text('u', 1, 1, r'[A-Z]')
    if raw == '&':
        S.require(t != '')
    S.check(conv(S, c, '<p>A' + raw + t + u + '</p>') == 'A' + raw + t + u, 'no reference')


def doc_open(S, c, n):
    """an unknown name without a semicolon"""
    t = S.text('name', 1, n, '[a-zA-Z0-9]')
    S.require(S.has(t[:1], '[a-zA-Z]'))
    S.require(known(S, t) is None)
    S.check(conv(S, c, '<p>A &' + t + ' B</p>') == 'A &' + t + ' B', 'an unknown name stays readable')


def doc_attr(S, c, n):
    """in attributes"""
    hexa = S.bool('hex')
    d = S.text('d', 1, n, '[0-9a-fA-F]' if hexa else '[0-9]')
    k = number_of(S, d, 16 if hexa else 10)
    # html.unescape: not these
    S.require(k > 160)
    S.require(k < 0x10000)
    x = char(S, k, '')
    S.require(x != '')
    S.require(S.no(S.has(x, r'[\s]')))
    S.require(k != 0xFFFE and k != 0xFFFF and (k < 0xFDD0 or k > 0xFDEF))
    raw = '&#' + ('x' if hexa else '') + d + ';'
    S.check(conv(S, c, '<img src="u" alt="A' + raw + 'B" />') == ['{{u|A%B}}', '|A%B|\n\n.. |A%B| image:: u', '!u(A%B)!', '![A%B](u)'][c].replace('%', x), 'the character of the reference')
