"""Regular expressions over symbolic text.

A pattern is parsed with the interpreter's own parser (re._parser) and compiled to a small backtracking
program.  At a start position all backtracking paths of the real engine are enumerated in the order in
which it would try them; each success is a conjunction of constraints on symbolic characters.  The run
then branches once per distinct *result* (end and groups), not once per character test.
"""
import re as _re
import re._compiler as _rc
import re._constants as K
import re._parser as _rp

from . import charset as C
from . import core
from .core import AND, FALSE, IN, NOT, OR, TRUE, Ctx
from .symstr import Piece, S, SymStr, atom_eq, atoms_of, br, conc_str, resolve, resolve_atoms

MAXREP = K.MAXREPEAT
UNROLL_LIMIT = 300
OUTCOME_LIMIT = 3000
STEP_LIMIT = 400000

_setcache = {}
_allc = None


def node_set(op, av, flags):
    """The set of characters a one-character node matches, asked of the real engine."""
    global _allc
    flags &= _re.I | _re.U | _re.A | _re.M | _re.S | _re.L
    key = (op, repr(av), flags)
    s = _setcache.get(key)
    if s is None:
        if op is K.LITERAL and not flags & _re.I:
            s = C.one(av)
        elif op is K.NOT_LITERAL and not flags & _re.I:
            s = C.compl(C.one(av))
        elif op is K.ANY:
            s = C.ALL if flags & _re.S else C.compl(C.one('\n'))
        elif op is K.IN and not flags & _re.I and all(o in (K.LITERAL, K.RANGE, K.NEGATE) or
                                                     (o is K.CATEGORY and not flags & _re.A) for o, _ in av):
            s = C.EMPTY
            neg = False
            for o, v in av:
                if o is K.NEGATE:
                    neg = True
                elif o is K.LITERAL:
                    s = C.union(s, C.one(v))
                elif o is K.RANGE:
                    s = C.union(s, C.rng(*v))
                else:
                    s = C.union(s, category(v))
            if neg:
                s = C.compl(s)
        else:
            if _allc is None:
                _allc = ''.join(map(chr, range(C.MAXCP + 1)))
            st = _rp.State()
            st.str = ''
            st.flags = flags
            inner = _rp.SubPattern(st, [(op, av)])
            outer = _rp.SubPattern(st, [(K.MAX_REPEAT, (1, MAXREP, inner))])
            p = _rc.compile(outer, flags)
            s = C.norm([(m.start(), m.end() - 1) for m in p.finditer(_allc)])
        _setcache[key] = s
    return s


def category(v):
    return {
        K.CATEGORY_SPACE: C.isspace, K.CATEGORY_WORD: C.isword, K.CATEGORY_DIGIT: C.isdecimal,
        K.CATEGORY_NOT_SPACE: lambda: C.compl(C.isspace()),
        K.CATEGORY_NOT_WORD: lambda: C.compl(C.isword()),
        K.CATEGORY_NOT_DIGIT: lambda: C.compl(C.isdecimal()),
    }[v]()


SINGLE = (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN)


class Compiler:
    def __init__(self, tree, flags):
        self.prog = []
        self.nregs = 0
        self.backref = False
        self.seq(tree, flags)
        self.emit('match')

    def emit(self, *ins):
        self.prog.append(ins)
        return len(self.prog) - 1

    def seq(self, items, flags):
        for op, av in items:
            self.node(op, av, flags)

    def sub(self, items, flags):
        c = Compiler.__new__(Compiler)
        c.prog, c.nregs, c.backref = [], 0, False
        c.seq(items, flags)
        c.emit('match')
        if c.backref:
            self.backref = True
        return c

    def node(self, op, av, flags):
        if op in SINGLE:
            self.emit('set', node_set(op, av, flags))
        elif op is K.SUBPATTERN:
            group, add, dele, p = av
            f = (flags | add) & ~dele
            if group is not None:
                self.emit('save', 2 * group)
            self.seq(p, f)
            if group is not None:
                self.emit('save', 2 * group + 1)
        elif op is K.BRANCH:
            ends = []
            alts = av[1]
            for i, alt in enumerate(alts):
                if i < len(alts) - 1:
                    sp = self.emit('split', None, None)
                    self.seq(alt, flags)
                    ends.append(self.emit('jmp', None))
                    self.prog[sp] = ('split', sp + 1, len(self.prog))
                else:
                    self.seq(alt, flags)
            for e in ends:
                self.prog[e] = ('jmp', len(self.prog))
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
            lo, hi, p = av
            if op is K.POSSESSIVE_REPEAT:
                c = self.sub([(K.MAX_REPEAT, (lo, hi, p))], flags)
                self.emit('atomic', c)
                return
            lazy = op is K.MIN_REPEAT
            if lo > UNROLL_LIMIT or (hi is not MAXREP and hi > UNROLL_LIMIT):
                raise core.GiveUp('repeat count %r' % (hi,))
            for _ in range(lo):
                self.seq(p, flags)
            if hi is MAXREP:
                simple = len(p) == 1 and p[0][0] in SINGLE
                if simple:
                    sp = self.emit('split', None, None)
                    self.seq(p, flags)
                    self.emit('jmp', sp)
                    body, out = sp + 1, len(self.prog)
                    self.prog[sp] = ('split', out, body) if lazy else ('split', body, out)
                else:
                    r = self.nregs
                    self.nregs += 1
                    self.emit('clear', r)
                    u = self.emit('until', r, None, None, lazy)
                    self.seq(p, flags)
                    self.emit('jmp', u)
                    self.prog[u] = ('until', r, u + 1, len(self.prog), lazy)
            else:
                sps = []
                for _ in range(hi - lo):
                    sps.append(self.emit('split', None, None))
                    self.seq(p, flags)
                out = len(self.prog)
                for sp in sps:
                    self.prog[sp] = ('split', out, sp + 1) if lazy else ('split', sp + 1, out)
        elif op is K.AT:
            self.emit('at', av, flags)
        elif op in (K.ASSERT, K.ASSERT_NOT):
            direction, p = av
            c = self.sub(p, flags)
            width = None
            if direction < 0:
                lo, hi = p.getwidth()
                if lo != hi:
                    raise core.GiveUp('variable width lookbehind')
                width = lo
            if any(i[0] == 'save' for i in c.prog):
                raise core.GiveUp('group inside lookaround')
            self.emit('look', c, op is K.ASSERT_NOT, width)
        elif op is K.GROUPREF:
            self.backref = True
            if flags & _re.I:
                raise core.GiveUp('case-insensitive back reference')
            self.emit('backref', av)
        elif op is K.GROUPREF_EXISTS:
            g, yes, no = av
            self.backref = True
            i = self.emit('ifgroup', g, None)
            self.seq(yes, flags)
            j = self.emit('jmp', None)
            self.prog[i] = ('ifgroup', g, len(self.prog))
            if no:
                self.seq(no, flags)
            self.prog[j] = ('jmp', len(self.prog))
        elif op is K.ATOMIC_GROUP:
            self.emit('atomic', self.sub(av, flags))
        elif op is K.FAILURE:
            self.emit('fail')
        else:
            raise core.GiveUp('regex op %r' % (op,))


def weaker(o1, o2):
    """every constraint of overlay o1 is implied by o2 (overlays: {var: set}, '' -> frozenset of formulas)"""
    if len(o1) > len(o2):
        return False
    for v, s in o1.items():
        t = o2.get(v)
        if t is None:
            return False
        if v == '':
            if not s <= t:
                return False
        elif t is not s and not C.subset(t, s):
            return False
    return True


def cube(o):
    fs = []
    for v, s in o.items():
        if v == '':
            fs.extend(s)
        else:
            fs.append(IN(v, s))
    return AND(fs)


def clause_not(p, o):
    """not(cube p), simplified under cube o; None when o implies it"""
    lits = []
    for v, s in p.items():
        if v == '':
            for f in s:
                if '' in o and f in o['']:
                    continue
                lits.append(NOT(f))
            continue
        t = o.get(v)
        if t is not None:
            i = C.inter(t, s)
            if not i:
                return None
            if i is t:
                continue
            lits.append(IN(v, C.compl(s)))
        else:
            lits.append(IN(v, C.compl(s)))
    return OR(lits)


class Run:
    """One enumeration: all ways the program matches atoms `a` from `pos`."""

    def __init__(self, a, endpos, lo=0):
        self.a = a
        self.end = endpos
        self.ctx = Ctx.cur
        self.steps = 0

    def need(self, x, cs, o):
        """overlay o with the extra constraint x in cs; None if impossible"""
        if type(x) is str:
            return o if ord(x) in cs else None
        cur = o.get(x)
        if cur is None:
            cur = self.ctx.tdom(x)
        new = C.inter(cur, cs)
        if new is cur:
            return o
        if not new:
            return None
        o = dict(o)
        o[x] = new
        return o

    def need_f(self, f, o):
        """overlay with an arbitrary extra formula"""
        if f.k == 'true':
            return o
        if f.k == 'false':
            return None
        if f.k == 'in' and f.a[0].base is None:
            return self.need(f.a[0], f.a[1], o)
        if f.k == 'and':
            for x in f.a:
                o = self.need_f(x, o)
                if o is None:
                    return None
            return o
        r = self.ctx.ev(f)
        if r is True:
            return o
        if r is False:
            return None
        o = dict(o)
        o[''] = o.get('', frozenset()) | {f}
        return o

    def ways(self, c, pos, o, saves):
        """generator of (end, overlay, saves) in priority order"""
        prog = c.prog
        a = self.a
        endpos = self.end
        memo = {}
        keep_saves = c.backref
        stack = [(0, pos, o, saves, (None,) * c.nregs)]
        while stack:
            pc, pos, o, saves, regs = stack.pop()
            while True:
                self.steps += 1
                if self.steps > STEP_LIMIT:
                    self.ctx.abort(core.GiveUp('regex enumeration too large'))
                ins = prog[pc]
                k = ins[0]
                if k == 'set':
                    if pos >= endpos:
                        break
                    x = a[pos]
                    if type(x) is str:
                        if ord(x) not in ins[1]:
                            break
                    else:
                        o = self.need(x, ins[1], o)
                        if o is None:
                            break
                    pos += 1
                    pc += 1
                elif k == 'split' or k == 'until':
                    key = (pc, pos, regs, saves if keep_saves else None)
                    seen = memo.get(key)
                    if seen is None:
                        memo[key] = [o]
                    else:
                        if any(weaker(p, o) for p in seen):
                            break
                        seen.append(o)
                    if k == 'split':
                        stack.append((ins[2], pos, o, saves, regs))
                        pc = ins[1]
                    else:
                        _, r, body, out, lazy = ins
                        if regs[r] == pos:
                            pc = out
                        else:
                            nr = regs[:r] + (pos,) + regs[r + 1:]
                            if lazy:
                                stack.append((body, pos, o, saves, nr))
                                pc = out
                            else:
                                stack.append((out, pos, o, saves, regs))
                                pc = body
                                regs = nr
                elif k == 'jmp':
                    pc = ins[1]
                elif k == 'save':
                    i = ins[1]
                    saves = saves[:i] + (pos,) + saves[i + 1:]
                    pc += 1
                elif k == 'clear':
                    r = ins[1]
                    regs = regs[:r] + (None,) + regs[r + 1:]
                    pc += 1
                elif k == 'at':
                    alts = list(self.at(ins[1], ins[2], pos, o))
                    if not alts:
                        break
                    for o2 in reversed(alts[1:]):
                        stack.append((pc + 1, pos, o2, saves, regs))
                    o = alts[0]
                    pc += 1
                elif k == 'match':
                    yield pos, o, saves
                    break
                elif k == 'look':
                    _, sub, neg, width = ins
                    p = pos if width is None else pos - width
                    alts = self.look(sub, neg, p, o, saves, pos if width is not None else None)
                    if not alts:
                        break
                    for o2 in reversed(alts[1:]):
                        stack.append((pc + 1, pos, o2, saves, regs))
                    o = alts[0]
                    pc += 1
                elif k == 'backref':
                    i = 2 * ins[1]
                    s, e = saves[i], saves[i + 1]
                    if s is None or e is None:
                        break
                    if pos + e - s > endpos:
                        break
                    for x, y in zip(a[s:e], a[pos:pos + e - s]):
                        o = self.need_f(atom_eq(x, y), o)
                        if o is None:
                            break
                    if o is None:
                        break
                    pos += e - s
                    pc += 1
                elif k == 'ifgroup':
                    i = 2 * ins[1]
                    pc = pc + 1 if saves[i] is not None and saves[i + 1] is not None else ins[2]
                elif k == 'atomic':
                    alts = []
                    prev = [o]
                    for e2, o2, s2 in self.ways(ins[1], pos, o, saves):
                        for base in prev:
                            o3 = self.merge(base, o2)
                            if o3 is not None:
                                alts.append((pc + 1, e2, o3, s2, regs))
                        if o2 is o or weaker(o2, o):
                            break
                        prev = [n for b in prev for n in self.negate(o2, o, b)]
                    if not alts:
                        break
                    stack.extend(reversed(alts))
                    break
                else:       # fail
                    break

    def merge(self, o1, o2):
        o = o1
        for v, s in o2.items():
            if v == '':
                for f in s:
                    o = self.need_f(f, o)
                    if o is None:
                        return None
            else:
                o = self.need(v, s, o)
                if o is None:
                    return None
        return o

    def negate(self, o2, o, b):
        """overlays covering b and not(o2 relative to o)"""
        for v, s in o2.items():
            if v == '':
                for f in s:
                    r = self.need_f(NOT(f), b)
                    if r is not None:
                        yield r
            else:
                if o.get(v) is s:
                    continue
                r = self.need(v, C.compl(s), b)
                if r is not None:
                    yield r

    def at(self, where, flags, pos, o):
        a = self.a
        if where is K.AT_BEGINNING or where is K.AT_BEGINNING_STRING:
            if pos == 0:
                yield o
            elif where is K.AT_BEGINNING and flags & _re.M:
                r = self.need(a[pos - 1], C.one('\n'), o)
                if r is not None:
                    yield r
        elif where is K.AT_END:
            if pos == self.end:
                yield o
            elif flags & _re.M or pos == self.end - 1:
                r = self.need(a[pos], C.one('\n'), o)
                if r is not None:
                    yield r
        elif where is K.AT_END_STRING:
            if pos == self.end:
                yield o
        elif where in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            w = C.isword()
            if flags & _re.A:
                w = C.inter(w, C.ASCII)
            n = C.compl(w)
            both = []
            for pw in (True, False):
                for cw in (True, False):
                    if (pw != cw) == (where is K.AT_BOUNDARY):
                        both.append((pw, cw))
            if self.end == 0:
                return
            for pw, cw in both:
                r = o
                if pos > 0:
                    r = self.need(a[pos - 1], w if pw else n, r)
                elif pw:
                    r = None
                if r is not None:
                    if pos < self.end:
                        r = self.need(a[pos], w if cw else n, r)
                    elif cw:
                        r = None
                if r is not None:
                    yield r
        else:
            raise core.GiveUp('anchor %r' % (where,))

    def look(self, sub, neg, p, o, saves, must_end):
        res = []
        if p < 0:
            return [o] if neg else []
        for e, o2, s2 in self.ways(sub, p, o, saves):
            if must_end is not None and e != must_end:
                continue
            res.append(o2)
            if o2 is o or weaker(o2, o):
                res = [o]
                break
        if not neg:
            return res
        cur = [o]
        for o2 in res:
            if o2 is o:
                return []
            cur = [n for b in cur for n in self.negate(o2, o, b)]
        return cur


class SymMatch:
    def __init__(self, pat, string, a, saves, pos, endpos):
        self.re, self.string, self._a, self._s = pat, string, a, saves
        self.pos, self.endpos = pos, endpos

    def _idx(self, g):
        if isinstance(g, SymStr):
            g = conc_str(g)
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError('no such group')
            return self.re.groupindex[g]
        g = g.__index__()
        if not 0 <= g <= self.re.groups:
            raise IndexError('no such group')
        return g

    def _get(self, i, default=None):
        s, e = self._s[2 * i], self._s[2 * i + 1]
        if s is None or e is None:
            return default
        return S(self._a[s:e])

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(self._idx(gs[0]))
        return tuple(self._get(self._idx(g)) for g in gs)

    def __getitem__(self, g):
        return self._get(self._idx(g))

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        from .shims import SxDict
        d = SxDict()
        for n, i in self.re.groupindex.items():
            d[n] = self._get(i, default)
        return d

    def start(self, g=0):
        i = self._idx(g)
        return -1 if self._s[2 * i] is None or self._s[2 * i + 1] is None else self._s[2 * i]

    def end(self, g=0):
        i = self._idx(g)
        return -1 if self._s[2 * i] is None or self._s[2 * i + 1] is None else self._s[2 * i + 1]

    def span(self, g=0):
        return self.start(g), self.end(g)

    @property
    def regs(self):
        return tuple(self.span(i) for i in range(self.re.groups + 1))

    def expand(self, template):
        return self.re._template(template)(self)

    @property
    def lastindex(self):
        raise core.GiveUp('lastindex')

    @property
    def lastgroup(self):
        raise core.GiveUp('lastgroup')

    def __bool__(self):
        return True


_compiled = {}


def get(pattern, flags=0):
    if isinstance(pattern, SymPattern):
        return pattern
    if isinstance(pattern, SymStr):
        pattern = conc_str(pattern)
    if isinstance(pattern, _re.Pattern):
        pattern, flags = pattern.pattern, pattern.flags & ~_re.U
    key = (pattern, int(flags))
    p = _compiled.get(key)
    if p is None:
        p = _compiled[key] = SymPattern(pattern, flags)
    return p


class SymPattern:
    def __init__(self, pattern, flags=0):
        self.real = _re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self.real.flags
        self.groups = self.real.groups
        self.groupindex = dict(self.real.groupindex)
        self._c = None
        self._tpl = {}
        self._cache = {}

    @property
    def c(self):
        if self._c is None:
            tree = _rp.parse(self.pattern, self.flags & ~_re.U if isinstance(self.pattern, str) else self.flags)
            self._c = Compiler(tree, self.flags)
        return self._c

    # ---- core
    def _options(self, a, pos, endpos, full, noempty):
        """[(key, formula)] mutually exclusive; key None is 'no match' and is last (absent if impossible)"""
        ctx = Ctx.cur
        doms = tuple(ctx.tdom(x).id for x in a[:endpos] if type(x) is not str)
        ck = (a, pos, endpos, full, noempty, doms)
        r = self._cache.get(ck)
        if r is not None:
            return r
        run = Run(a, endpos)
        outs = []
        n = 0
        sure = False
        for end, o, saves in run.ways(self.c, pos, {}, (None,) * (2 * self.groups + 2)):
            if full and end != endpos:
                continue
            if noempty and end == pos:
                continue
            n += 1
            if n > OUTCOME_LIMIT:
                ctx.abort(core.GiveUp('too many match outcomes'))
            key = (end, saves)
            if any(weaker(p, o) for k, p in outs):
                continue
            outs.append((key, o))
            if not o:
                sure = True
                break
        opts = {}
        none = [TRUE]
        for i, (key, o) in enumerate(outs):
            cl = [cube(o)]
            for k2, p in outs[:i]:
                if k2 == key:
                    continue
                c = clause_not(p, o)
                if c is not None:
                    cl.append(c)
            opts.setdefault(key, []).append(AND(cl))
            if not sure:
                none.append(NOT(cube(o)))
        res = [(k, OR(fs)) for k, fs in opts.items()]
        res = [(k, f) for k, f in res if f.k != 'false']
        if not sure:
            res.append((None, AND(none)))
        r = self._cache[ck] = (res, [f for k, f in res])
        return r

    def _at(self, a, pos, endpos, full=False, noempty=False):
        """saves of the match starting exactly at pos, or None; branches"""
        res, fs = self._options(a, pos, endpos, full, noempty)
        if len(res) == 1:
            key = res[0][0]
        else:
            key = res[Ctx.cur.choose(fs)][0]
        return None if key is None else self._fin(key, pos)

    def _fin(self, key, pos):
        end, saves = key
        return (pos, end) + saves[2:]

    def _find(self, a, pos, endpos, noempty=False):
        first = pos
        while pos <= endpos:
            r = self._at(a, pos, endpos, noempty=noempty and pos == first)
            if r is not None:
                return r
            pos += 1
        return None

    def _prep(self, string, pos, endpos):
        s = resolve(string)
        a = atoms_of(s)
        n = len(a)
        pos = min(max(pos.__index__(), 0), n)
        endpos = n if endpos is None else min(max(endpos.__index__(), 0), n)
        return s, a, pos, endpos

    def _mk(self, s, a, r, pos, endpos):
        return None if r is None else SymMatch(self, s, a, r, pos, endpos)

    def _conc(self, string):
        return type(string) is str or (isinstance(string, str))

    def match(self, string, pos=0, endpos=None):
        if self._conc(string):
            return self.real.match(string, pos.__index__(), *(() if endpos is None else (endpos.__index__(),)))
        s, a, pos, endpos = self._prep(string, pos, endpos)
        if pos > endpos:
            return None
        return self._mk(s, a, self._at(a, pos, endpos), pos, endpos)

    def fullmatch(self, string, pos=0, endpos=None):
        if self._conc(string):
            return self.real.fullmatch(string, pos.__index__(), *(() if endpos is None else (endpos.__index__(),)))
        s, a, pos, endpos = self._prep(string, pos, endpos)
        if pos > endpos:
            return None
        return self._mk(s, a, self._at(a, pos, endpos, full=True), pos, endpos)

    def search(self, string, pos=0, endpos=None):
        if self._conc(string):
            return self.real.search(string, pos.__index__(), *(() if endpos is None else (endpos.__index__(),)))
        s, a, pos, endpos = self._prep(string, pos, endpos)
        return self._mk(s, a, self._find(a, pos, endpos), pos, endpos)

    def finditer(self, string, pos=0, endpos=None):
        if self._conc(string):
            yield from self.real.finditer(string, pos, *(() if endpos is None else (endpos,)))
            return
        s, a, pos, endpos = self._prep(string, pos, endpos)
        p0 = pos
        noempty = False
        while pos <= endpos:
            r = self._find(a, pos, endpos, noempty)
            if r is None:
                return
            yield SymMatch(self, s, a, r, p0, endpos)
            noempty = r[0] == r[1]
            pos = r[1]

    def findall(self, string, pos=0, endpos=None):
        out = []
        for m in self.finditer(string, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.groups('')[0])
            else:
                out.append(m.groups(''))
        return out

    def _template(self, repl):
        if isinstance(repl, SymStr):
            # a backslash in symbolic replacement text would be interpreted
            if repl.contains('\\'):
                repl = conc_str(repl)
            else:
                return lambda m: repl
        f = self._tpl.get(repl)
        if f is None:
            if '\\' not in repl:
                def f(m, repl=repl):
                    return repl
            else:
                parts = _rp.parse_template(repl, self.real)

                def f(m, parts=parts):
                    out = []
                    for p in parts:
                        if isinstance(p, int):
                            g = m.group(p)
                            out.extend(atoms_of(g if g is not None else ''))
                        else:
                            out.extend(p)
                    return S(tuple(out))
            self._tpl[repl] = f
        return f

    def subn(self, repl, string, count=0):
        if not callable(repl):
            repl = self._template(repl)
        a = atoms_of(resolve(string))
        out = []
        i = n = 0
        for m in self.finditer(string):
            if count and n >= count:
                break
            out.extend(a[i:m.start()])
            r = repl(m)
            if r is not None:
                out.extend(atoms_of(r))
            i = m.end()
            n += 1
        out.extend(a[i:])
        return S(tuple(out)), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def split(self, string, maxsplit=0):
        a = atoms_of(resolve(string))
        out = []
        i = n = 0
        for m in self.finditer(string):
            if maxsplit and n >= maxsplit:
                break
            out.append(S(a[i:m.start()]))
            out.extend(m.groups())
            i = m.end()
            n += 1
        out.append(S(a[i:]))
        return out

    def scanner(self, *a):
        raise core.GiveUp('scanner')

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return repr(self.real)


class ReModule:
    """stands in for the module `re`"""
    def __init__(self):
        for n in dir(_re):
            if n.isupper() or n in ('RegexFlag', 'error', 'PatternError', 'NOFLAG'):
                setattr(self, n, getattr(_re, n))
        self.Pattern = SymPattern
        self.Match = SymMatch
        self.__name__ = 're'

    def compile(self, pattern, flags=0):
        return get(pattern, flags)

    def match(self, pattern, string, flags=0):
        return get(pattern, flags).match(string)

    def fullmatch(self, pattern, string, flags=0):
        return get(pattern, flags).fullmatch(string)

    def search(self, pattern, string, flags=0):
        return get(pattern, flags).search(string)

    def sub(self, pattern, repl, string, count=0, flags=0):
        return get(pattern, flags).sub(repl, string, count)

    def subn(self, pattern, repl, string, count=0, flags=0):
        return get(pattern, flags).subn(repl, string, count)

    def split(self, pattern, string, maxsplit=0, flags=0):
        return get(pattern, flags).split(string, maxsplit)

    def findall(self, pattern, string, flags=0):
        return get(pattern, flags).findall(string)

    def finditer(self, pattern, string, flags=0):
        return get(pattern, flags).finditer(string)

    def escape(self, s):
        if isinstance(s, str):
            return _re.escape(s)
        special = C.of('()[]{}?*+-|^$\\.&~# \t\n\r\v\f')
        from .symstr import mkpiece
        out = []
        for x in resolve_atoms(s.a):
            if type(x) is str:
                out.extend(_re.escape(x))
            elif br(IN(x, special)):
                out.extend(('\\', x))
            else:
                out.append(x)
        return S(tuple(out))

    def purge(self):
        pass
