"""Used by selftest.py: properties known to hold or not, decided by the engine."""
import html as htmllib
import re
from harness import lib


def broken(S):
    x = S.text('x', 0, 3, '[a-cA-C&<]')
    S.check(S.no(x.upper() == 'A&B'), 'fails for one text')


def fine(S):
    x = S.text('x', 0, 3, lib.ANY)
    S.check(lib.esc(x).replace('&lt;', '<').replace('&gt;', '>').replace('&amp;', '&') == x, 'escaping is reversible')
    m = re.match(r'([a-z]*?)(\d+)|(.)', x)
    S.observe('groups', m.groups() if m else None)
    S.observe('split', x.split())
    S.observe('unescape', htmllib.unescape('&lt;') + x.strip())


def bad_regex(S):
    """greedy is not lazy"""
    x = S.text('x', 3, 3, '[ab]')
    a, b = re.match('a*', x).group(), re.match('a*?', x).group()
    S.check(a == b, 'fails for texts that start with a')
