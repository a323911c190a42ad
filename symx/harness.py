"""What a harness sees: the same harness source runs on symbolic inputs (SymS, executed by the engine on
the rewritten sources) and on concrete ones (ConcS, executed by the plain interpreter on the plain sources).

    S.text(name, lo, hi, cls)   a text of lo..hi characters, each from the character class `cls` (regex syntax)
    S.choice(name, options)     one of the options          S.int(name, lo, hi)     S.bool(name)
    S.load(module)              the code under test
    S.require(cond)             precondition (ends the path where it is false)
    S.check(cond, msg)          the property: decided for every input of the path by the solver
    S.observe(label, value)     compared with the value the real code produces on the path's model
"""
import importlib


class Violation(Exception):
    pass


class Unmet(Exception):
    """a precondition does not hold (concrete run)"""


class Inputs(dict):
    def __missing__(self, name):
        # the engine failed before this input was made
        raise Unmet('no input %r' % name)


class ConcS:
    sym = False

    def __init__(self, inputs):
        self.inputs = Inputs(inputs)
        self.obs = []
        self.checks = 0
        self.covered = []

    def text(self, name, lo=0, hi=None, cls=None):
        return self.inputs[name]

    def choice(self, name, options):
        return options[self.inputs[name]]

    def int(self, name, lo, hi):
        return self.inputs[name]

    def bool(self, name):
        return bool(self.inputs[name])

    def load(self, name):
        return importlib.import_module(name)

    def fresh(self, name):
        """the module as a new process sees it"""
        import sys
        top = name.split('.')[0]

        def drop():
            return {k: sys.modules.pop(k) for k in list(sys.modules) if k.split('.')[0] == top}
        old = drop()
        try:
            return importlib.import_module(name)
        finally:
            drop()
            sys.modules.update(old)

    def unsupported(self, what):
        """the code uses something the harness has no model of"""
        raise Unmet(what)

    def printed(self, f):
        """the result of f() and whether it wrote to the console"""
        import contextlib
        import io
        import warnings
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = f()
        return r, out.getvalue() != ''

    def require(self, cond):
        if not cond:
            raise Unmet()

    def check(self, cond, msg):
        self.checks += 1
        if not cond:
            raise Violation(msg)

    def fail(self, msg):
        self.check(False, msg)

    def cover(self, label):
        self.covered.append(label)

    def no(self, cond):
        return not cond

    def observe(self, label, value):
        self.obs.append((label, value))

    def same(self, a, b):
        return a == b

    def matches(self, pattern, s):
        import re
        return re.fullmatch(pattern, s) is not None

    def patched(self, module, **attrs):
        return _Patched(module, attrs)

    # ---- reading HTML (the same three operations exist on symbolic text)
    def tokens(self, html):
        """[(kind, name, text)]; kind: text, open, close, empty, broken"""
        out = []
        i = 0
        while i < len(html):
            if html[i] == '<':
                j = html.find('>', i)
                if j < 0:
                    out.append(('broken', '', html[i:]))
                    break
                t = html[i:j + 1]
                out.append(tag_kind(t, t) + (t,))
                i = j + 1
            else:
                j = html.find('<', i)
                j = len(html) if j < 0 else j
                out.append(('text', '', html[i:j]))
                i = j
        return out

    def decode(self, text):
        """the character data an entity-escaped text stands for (lt, gt, amp, quot only)"""
        import re
        return re.sub('&(lt|gt|amp|quot);', lambda m: ENT[m.group(1)], text)

    def cut(self, text, a, b):
        """(text without, text of) the part between the first `a` and the last `b`; both too long to be typed in by a text"""
        i, j = text.find(a), text.rfind(b)
        if i < 0 or j < i:
            return None
        i += len(a)
        return text[:i] + text[j:], text[i:j]

    def keep(self, text, cls):
        """only the characters of the class"""
        import re
        return ''.join(re.findall(cls, text))

    def has(self, text, cls):
        """does the text contain a character of the class?"""
        import re
        return re.search(cls, text) is not None


ENT = {'lt': '<', 'gt': '>', 'amp': '&', 'quot': '"'}


def tag_kind(head, tail):
    import re
    m = re.match(r'<(/?)([A-Za-z0-9]*)', head)
    name = m.group(2)
    if m.group(1):
        return 'close', name
    return ('empty' if tail.endswith('/>') else 'open'), name


class _Patched:
    """replace names of a loaded module (stubs for I/O), undone afterwards"""

    def __init__(self, module, attrs):
        self.m, self.attrs = module, attrs

    def __enter__(self):
        d = self.m.__dict__
        self.new = [k for k in self.attrs if k not in d]
        self.old = {k: d[k] for k in self.attrs if k in d}
        for k, v in self.attrs.items():
            setattr(self.m, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.m, k, v)
        for k in self.new:
            delattr(self.m, k)
        return False


class PathEnd(BaseException):
    pass


_sets = {}


def charclass(cls):
    """regex character class -> interval set, asked of the real engine (surrogates excluded)"""
    from . import charset as C
    s = _sets.get(cls)
    if s is None:
        if cls is None:
            s = C.UNICODE
        else:
            s = C.inter(C.from_re(cls), C.UNICODE)
        _sets[cls] = s
    return s


def make_syms():
    from . import charset as C
    from . import core
    from .symstr import (S as mk, tof, SymStr, model_str, SymBool, Piece, mkpiece, pick_cell, br, atom_in,
                         mkbool)

    ANGLES = C.of('<>')

    def split(ctx, x):
        """the atoms of a Piece: cells with a bracket one by one, the others stay together"""
        special, rest, other = [], [], []
        for s, e in x.cells:
            if any((y in '<>') if type(y) is str else C.inter(C.inter(ctx.tdom(x.var), s), ANGLES) for y in e):
                special.append((s, e))
            else:
                rest.append((s, e))
        if not rest:
            return pick_cell(x)
        none = C.EMPTY
        for s, e in rest:
            none = C.union(none, s)
        k = ctx.choose([core.IN(x.var, s) for s, e in special] + [core.IN(x.var, none)])
        return special[k][1] if k < len(special) else mkpiece(x.var, rest)

    class SymS:
        sym = True

        def __init__(self, ctx, loader):
            self.ctx = ctx
            self.loader = loader
            self.values = {}            # input name -> symbolic or concrete value
            self.obs = []
            self.checks = 0
            self.covered = []

        def text(self, name, lo=0, hi=None, cls=None):
            if name in self.values:
                raise RuntimeError('input %r declared twice' % name)
            n = lo
            if hi is not None and hi > lo:
                n = lo + self.pick('#' + name, hi - lo + 1)
            cs = charclass(cls)
            v = mk(tuple(self.ctx.new('%s.%d' % (name, i), cs) for i in range(n)))
            self.values[name] = v
            return v

        def pick(self, name, n):
            v = self.ctx.new(name, C.rng(0, n - 1))
            return self.ctx.choose([core.IN(v, C.rng(i, i)) for i in range(n)])

        def choice(self, name, options):
            i = self.pick('!' + name, len(options)) if len(options) > 1 else 0
            self.values[name] = i
            return options[i]

        def int(self, name, lo, hi):
            i = lo + self.pick('!' + name, hi - lo + 1)
            self.values[name] = i
            return i

        def bool(self, name):
            i = self.pick('!' + name, 2)
            self.values[name] = i
            return bool(i)

        def load(self, name):
            return self.loader.load(name)

        def fresh(self, name):
            return type(self.loader)(self.loader.roots, base=self.loader.base).load(name)

        def unsupported(self, what):
            raise core.GiveUp('no model: ' + what)

        def printed(self, f):
            import contextlib
            import io
            import warnings
            from . import shims
            out = io.StringIO()
            shims.console = []
            try:
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    r = f()
                return r, shims.console != [] or out.getvalue() != ''
            finally:
                shims.console = None

        def require(self, cond):
            self.ctx.require(tof(cond))

        def check(self, cond, msg):
            self.checks += 1
            if isinstance(cond, SymBool):
                f = cond.f
            else:
                f = core.TRUE if cond else core.FALSE
            m = self.ctx.prove(f)
            if m is not None:
                raise Found(msg, m)
            # proved: nothing is assumed from it, the path condition stays as it was

        def fail(self, msg):
            self.check(False, msg)

        def cover(self, label):
            self.covered.append(label)

        def no(self, cond):
            return ~cond if isinstance(cond, SymBool) else not cond

        def observe(self, label, value):
            self.obs.append((label, value))

        def same(self, a, b):
            return a == b

        def matches(self, pattern, s):
            from . import nfa
            return nfa.matches(pattern, s)

        def patched(self, module, **attrs):
            return _Patched(module, attrs)

        # ---- reading HTML
        def tokens(self, html):
            if isinstance(html, str):
                return ConcS.tokens(self, html)
            LT, GT = C.one('<'), C.one('>')
            ANG = C.of('<>')
            todo = list(html.a)
            todo.reverse()
            out = []
            cur = []
            intag = False
            while todo:
                x = todo.pop()
                if type(x) is Piece:
                    hit = False
                    for s, e in x.cells:
                        if C.inter(self.ctx.tdom(x.var), s):
                            for y in e:
                                if (y in '<>') if type(y) is str else C.inter(C.inter(self.ctx.tdom(x.var), s), ANG):
                                    hit = True
                    if hit:
                        todo.extend(reversed(split(self.ctx, x)))
                    else:
                        cur.append(x)
                    continue
                if not intag and br(atom_in(x, LT)):
                    if cur:
                        out.append(('text', '', mk(tuple(cur))))
                    cur = [x]
                    intag = True
                elif intag and br(atom_in(x, GT)):
                    cur.append(x)
                    h = []
                    for y in cur:
                        if type(y) is not str:
                            break
                        h.append(y)
                    t = ''.join(y if type(y) is str else '?' for y in cur[-3:-1]) + '>'
                    h = ''.join(h)
                    if not h:
                        h = '<'
                    out.append(tag_kind(h, t) + (mk(tuple(cur)),))
                    cur = []
                    intag = False
                else:
                    cur.append(x)
            if cur:
                out.append(('broken' if intag else 'text', '', mk(tuple(cur))))
            return out

        def decode(self, text):
            if isinstance(text, str):
                return ConcS.decode(self, text)
            out = []
            run = []

            def flush():
                if run:
                    out.extend(ConcS.decode(self, ''.join(run)))
                    run.clear()
            for x in text.a:
                if type(x) is str:
                    run.append(x)
                    continue
                flush()
                if type(x) is Piece:
                    cells = []
                    for s, e in x.cells:
                        if all(type(y) is str for y in e):
                            e = tuple(ConcS.decode(self, ''.join(e)))
                        cells.append((s, e))
                    out.extend(mkpiece(x.var, cells))
                else:
                    out.append(x)
            flush()
            return mk(tuple(out))

        def cut(self, text, a, b):
            if isinstance(text, str):
                return ConcS.cut(self, text, a, b)
            t = ''.join(x if type(x) is str else '\x00' for x in text.a)
            i, j = t.find(a), t.rfind(b)
            if i < 0 or j < i:
                return None
            i += len(a)
            return mk(text.a[:i] + text.a[j:]), mk(text.a[i:j])

        def keep(self, text, cls):
            if isinstance(text, str):
                return ConcS.keep(self, text, cls)
            cs = C.from_re(cls)
            out = []
            for x in text.a:
                if type(x) is str:
                    if ord(x) in cs:
                        out.append(x)
                elif type(x) is Piece:
                    cells = []
                    for s, e in x.cells:
                        parts = [(s, ())]
                        for y in e:
                            if type(y) is str:
                                if ord(y) in cs:
                                    parts = [(t, g + (y,)) for t, g in parts]
                            else:
                                parts = [q for t, g in parts for q in
                                         ((C.inter(t, cs), g + (y,)), (C.minus(t, cs), g)) if q[0]]
                        cells.extend(parts)
                    out.extend(mkpiece(x.var, cells))
                elif x.base is None:
                    out.extend(mkpiece(x, [(C.inter(x.dom, cs), (x,)), (C.minus(x.dom, cs), ())]))
                elif br(atom_in(x, cs)):
                    out.append(x)
            return mk(tuple(out))

        def has(self, text, cls):
            if isinstance(text, str):
                return ConcS.has(self, text, cls)
            cs = C.from_re(cls)
            fs = []
            for x in text.a:
                if type(x) is Piece:
                    for s, e in x.cells:
                        for y in e:
                            if type(y) is str:
                                if ord(y) in cs:
                                    fs.append(core.IN(x.var, s))
                            else:
                                fs.append(core.IN(y, C.inter(s, cs)))
                else:
                    fs.append(atom_in(x, cs))
            return mkbool(core.OR(fs))

        def concrete(self, m):
            return {k: model_str(v, m) if isinstance(v, SymStr) else v for k, v in self.values.items()}

    class Found(BaseException):
        def __init__(self, msg, model):
            self.msg, self.model = msg, model

    return SymS, Found


def concval(x, m):
    """an observed value under a model"""
    from .symstr import SymStr, SymInt, SymBool, model_str
    from . import core
    if isinstance(x, SymStr):
        return model_str(x, m)
    if isinstance(x, SymInt):
        return core.lval(x.l, m)
    if isinstance(x, SymBool):
        return core.fval(x.f, m)
    if isinstance(x, list):
        return [concval(y, m) for y in x]
    if isinstance(x, tuple):
        return tuple(concval(y, m) for y in x)
    if isinstance(x, dict):
        return {concval(k, m): concval(v, m) for k, v in x.items()}
    return x
