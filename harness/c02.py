"""C02: creole2html answers every text with properly nested HTML."""
from harness import lib

BOUNDS = {
    'free': 'every text of up to 4 (quick) / 5 (thorough) Unicode characters, both line break modes',
    'around': 'every text of up to 2-3 characters inside, before and after each construct',
}


def cases(tier):
    n = 4 if tier == 'quick' else 5
    out = []
    for blog in (True, False):
        out.append(('free-%s' % ('blog' if blog else 'wiki'), 'free', n, '', '', blog))
    m = 2 if tier == 'quick' else 3
    for i, (pre, post) in enumerate(AROUND):
        out.append(('around-%02d' % i, 'free', m, pre, post, i % 2 == 0))
    return out


AROUND = [
    ('* a', '\n** b\n* c'), ('* a\n', ' b\n# c'), ('|a', '|b|\n|c|'), ('|=a', '\n|b'), ('**a', '** b'), ('//**a', '//**'),
    ('[[a', '|b]]'), ('{{a', '|b}} x'), ('{{{', '}}} a'), ('{{{\na', '\n}}}\nb'), ('= a', '\nb'), ('a\n----', '\nb'),
    ('a\n', 'b\n\nc'), ('<<toc>>\n= a', '\n== b'), ('__a,,b', '__^^,,'), ('~~a##', '##~~--'), ('* **a', '\n** b**'),
    ('[[http://x', ' y]]'), ('http://a', ' b'), ('a\\\\', '\\\\b'), ('# a\n## b\n', '# c'),
    ('{{a|b|1', '}}'), ('[[a|b http://c', ' d]]'), ('[[a|[[b|', ']] c]]'), ('[[a|<<x>>', '{{b}}**c**]]'), ('|[[a|b]]', '|{{c|d}}|'),
]


def free(S, n, pre, post, blog):
    creole = S.load('creole')
    src = pre + S.text('t', 0, n) + post
    html = creole.creole2html(src, blog_line_breaks=blog, verbose=0)
    S.observe('html', html)
    S.check(isinstance(html, str), 'the result is a string')
    lib.check_nesting(S, html)
