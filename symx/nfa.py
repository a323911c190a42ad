"""Full-match of a (regular) expression over symbolic text as one formula, without branching.

Only regular constructs are accepted (no groups referred to, no look-around); used by oracles.
"""
import re as _re
import re._constants as K
import re._parser as _rp

from . import core
from .core import AND, FALSE, IN, OR, TRUE
from .sre import node_set, SINGLE
from .symstr import Piece, atom_in, atoms_of, mkbool

_cache = {}


class NFA:
    def __init__(self, pattern, flags=0):
        self.eps = []
        self.edges = []
        tree = _rp.parse(pattern, flags)
        self.flags = tree.state.flags
        a = self.new()
        b = self.seq(tree, a)
        self.start, self.final = a, b
        n = len(self.eps)
        self.clo = [self.closure(i) for i in range(n)]

    def new(self):
        self.eps.append([])
        self.edges.append([])
        return len(self.eps) - 1

    def closure(self, q):
        seen = {q}
        todo = [q]
        while todo:
            for r in self.eps[todo.pop()]:
                if r not in seen:
                    seen.add(r)
                    todo.append(r)
        return sorted(seen)

    def seq(self, items, a):
        for op, av in items:
            a = self.node(op, av, a)
        return a

    def node(self, op, av, a):
        if op in SINGLE:
            b = self.new()
            self.edges[a].append((node_set(op, av, self.flags), b))
            return b
        if op is K.SUBPATTERN:
            return self.seq(av[3], a)
        if op is K.BRANCH:
            b = self.new()
            for alt in av[1]:
                c = self.new()
                self.eps[a].append(c)
                self.eps[self.seq(alt, c)].append(b)
            return b
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            for _ in range(lo):
                a = self.seq(sub, a)
            if hi is K.MAXREPEAT:
                c = self.new()
                d = self.new()
                self.eps[a].append(c)
                self.eps[self.seq(sub, c)].append(c)
                self.eps[c].append(d)
                return d
            ends = [a]
            for _ in range(hi - lo):
                c = self.new()
                self.eps[a].append(c)
                a = self.seq(sub, c)
                ends.append(a)
            d = self.new()
            for e in ends:
                self.eps[e].append(d)
            return d
        raise NotImplementedError('regular expression node %s' % op)

    def step(self, guards, x):
        out = {}
        for q, g in guards.items():
            for r in self.clo[q]:
                for cs, t in self.edges[r]:
                    f = AND([g, atom_in(x, cs)])
                    if f is not FALSE:
                        out.setdefault(t, []).append(f)
        return {t: OR(fs) for t, fs in out.items()}

    def formula(self, atoms):
        guards = {self.start: TRUE}
        for x in atoms:
            if type(x) is Piece:
                nxt = {}
                for s, e in x.cells:
                    c = IN(x.var, s)
                    g = {q: AND([f, c]) for q, f in guards.items()}
                    for y in e:
                        g = self.step(g, y)
                    for q, f in g.items():
                        if f is not FALSE:
                            nxt.setdefault(q, []).append(f)
                guards = {q: OR(fs) for q, fs in nxt.items()}
            else:
                guards = self.step(guards, x)
            if not guards:
                return FALSE
        return OR([g for q, g in guards.items() if self.final in self.clo[q]])


def matches(pattern, s, flags=0):
    if isinstance(s, str):
        return _re.fullmatch(pattern, s, flags) is not None
    n = _cache.get((pattern, flags))
    if n is None:
        n = _cache[pattern, flags] = NFA(pattern, flags)
    return mkbool(n.formula(atoms_of(s)))
