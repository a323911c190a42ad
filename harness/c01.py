"""C01: creole2html never lets wiki text inject HTML."""
from harness import lib

BOUNDS = {
    'free': 'every text of up to 4 (quick) / 5 (thorough) Unicode characters, both line break modes, strict or not',
    'around': 'every text of up to 2 / 3 characters in each text-bearing position of each construct (see AROUND)',
    'long': 'every text of up to 8 / 12 characters out of quotes, angle brackets, ampersands, letters and blanks '
            'inside each construct',
    'macro': 'every text of up to 2 / 3 characters as macro name, arguments and content, for missing, raising, argument '
             'refusing and wrong typed macros, verbose 0 to 2',
}
WRONG, FOR = 'Wrong macro arguments: ', " for macro '"


# (before, after) the symbolic text
AROUND = [
    ('a ', ' b'), ('= ', ''), ('== a', ' =='), ('* ', ''), ('## ', ''), ('* a\n** ', '\n* c'), ('|', '|b|'), ('|=', '|b'),
    ('|a|', ''), ('**', '**'), ('//', '//'), ('##', '##'), ('^^', '^^'), (',,', ',,'), ('__', '__'), ('--', '--'), ('~~', '~~'),
    ('[[', ']]'), ('[[', '|b]]'), ('[[a|', ']]'), ('[[a|{{', '}}]]'), ('[[a|{{b|', '}}]]'), ('{{', '}}'), ('{{', '|b}}'), ('{{a|', '}}'),
    ('{{a|', '|1x2}}'), ('{{a|b|', 'x2}}'), ('{{a|b|1x', '}}'), ('{{', '|x|3x4}}'), ('{{', '||3x4}}'),
    ('{{{', '}}}'), ('a {{{', '}}} b'), ('{{{\n', '\n}}}'), ('|{{{', '}}}|'), ('http://', ''), ('~http://', ''), ('a http://x', ' b'),
    ('~', ''), ('a\\\\', ''), ('<<toc>>\n= ', ''), ('= ', '\n<<toc>>'), ('<<toc>>\n== ', ' ==\n= b'), ('<<toc ', '>>\n= a'), ('<<toc>>', '\n= b\n<<toc>>'),
    ('----', ''), ('[[a|**', '**]]'), ('|[[', '|b]]|'), ('|{{', '|b}}|'), ('* [[', '|b]]'), ('= [[', ']]'),
]


def cases(tier):
    n, m, k = (4, 2, 8) if tier == 'quick' else (5, 3, 12)
    out = []
    for blog, strict in ((True, False), (False, True)):
        out.append(('free-%s' % ('blog' if blog else 'wiki-strict'), 'free', n, '', '', blog, strict, lib.ANY))
    for i, (pre, post) in enumerate(AROUND):
        out.append(('around-%02d' % i, 'free', m, pre, post, True, False, lib.ANY))
        out.append(('long-%02d' % i, 'free', k // 2 if 'x' in pre + post else k, pre, post, i % 2 == 0, i % 3 == 0, r'[<>&"\'a-z ;]'))
    for i, (pre, post) in enumerate(MACROS):
        for verbose in (0, 1, 2):
            out.append(('macro-%02d-%d' % (i, verbose), 'macro', 2 + (verbose == 0 and 'raising' not in pre or verbose == 1 and tier != 'quick'), pre, post, verbose))
    return out


# name: missing, raising with its text, refusing keywords, no string
MACROS = [
    ('<<', '>>'), ('<<x ', '>>'), ('<<x>>', '<</x>>'), ('<<x k="', '">>'), ('a <<x k=', '>>b<</x>> c'), ('<<raising k="', '">>'), ('<<raising>>', '<</raising>>'),
    ('<<raising t=', '>>a<</raising>>'), ('<<strict ', '>>'), ('<<strict>>', '<</strict>>'), ('<<strict ', '=1>>a<</strict>>'), ('<<number ', '>>'), ('<<number>>', '<</number>>'),
    ('* a <<x k="', '">>'), ('|<<raising>>', '<</raising>>|'), ('= <<x ', '>>'), ('<<toc ', '>>\n= a'), ('<<toc depth="', '">>\n= a'), ('<<toc>>', '<</toc>>\n= a'),
]


def macro(S, n, pre, post, verbose):
    def raising(text=None, k=None, t=None):
        raise (KeyError if k else ValueError)(k or text or 'a <b> &c')

    def strict(text=None):
        return ''

    def number(text=None, **kwargs):
        return [text]

    class Err:
        def write(self, text):
            pass
    src = pre + S.text('t', 0, n, lib.ANY) + post
    html = S.load('creole').creole2html(src, verbose=verbose, stderr=Err(), macros={'raising': raising, 'strict': strict, 'number': number})
    S.observe('html', html)
    echo = S.cut(html, WRONG, FOR)
    if echo:
        lib.check_safe(S, echo[0])
        S.known('wrong-arguments-echo', S.no(S.matches(lib.TEXT_RE, echo[1])))
    lib.check_safe(S, html)


def free(S, n, pre, post, blog, strict, cls):
    creole = S.load('creole')
    src = pre + S.text('t', 0, n, cls) + post
    html = creole.creole2html(src, blog_line_breaks=blog, strict=strict, verbose=0)
    S.observe('html', html)
    lib.check_safe(S, html)
