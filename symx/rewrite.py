"""Load python source so that it runs on symbolic values: a small AST rewriting plus replaced builtins.

The control flow and every statement stay those of the source file; only operations whose built-in
implementation would reject (or silently concretise) a symbolic operand are routed through symx.shims.
"""
import ast
import os
import sys
import types

from . import shims


class Rewriter(ast.NodeTransformer):
    def call(self, name, *args):
        return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant('') if v.format_spec is None else self.visit(v.format_spec)
                if isinstance(spec, ast.JoinedStr):
                    spec = self.visit_JoinedStr(spec)
                conv = '' if v.conversion == -1 else chr(v.conversion)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(conv), spec], ast.Load()))
        return ast.copy_location(self.call('__sx_fstr__', *parts), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self.call('__sx_mod__', node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(
                [node.target], self.call('__sx_mod__', ast.Name(node.target.id, ast.Load()), node.value)), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            f = '__sx_in__' if isinstance(node.ops[0], ast.In) else '__sx_not_in__'
            return ast.copy_location(self.call(f, node.left, node.comparators[0]), node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr in shims.HOOKED:
            if isinstance(node.value, ast.Call) and isinstance(node.value.func, ast.Name) and node.value.func.id == 'super':
                return node
            return ast.copy_location(self.call('__sx_attr__', node.value, ast.Constant(node.attr)), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Tuple)):
            if isinstance(node.slice, ast.Constant):
                return node
            if isinstance(node.slice, ast.UnaryOp) and isinstance(node.slice.operand, ast.Constant):
                return node
            return ast.copy_location(self.call('__sx_getitem__', node.value, node.slice), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        return ast.copy_location(self.call('__sx_dict__', ast.List(
            [ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load())), node) \
            if all(k is not None for k in node.keys) else self._unpack(node)

    def _unpack(self, node):
        e = self.call('__sx_dict__')
        for k, v in zip(node.keys, node.values):
            r = v if k is None else self.call('__sx_dict__', ast.List([ast.Tuple([k, v], ast.Load())], ast.Load()))
            e = ast.BinOp(e, ast.BitOr(), r)
        return ast.copy_location(e, node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self.call('__sx_dict__', ast.GeneratorExp(
            ast.Tuple([node.key, node.value], ast.Load()), node.generators)), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(self.call('__sx_set__', ast.List(node.elts, ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self.call('__sx_set__', ast.GeneratorExp(node.elt, node.generators)), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        stars = [k for k in node.keywords if k.arg is None]
        if stars:
            if isinstance(node.func, ast.Name) and node.func.id == 'super':
                return node
            e = self.call('__sx_dict__')
            for k in node.keywords:
                if k.arg is None:
                    r = k.value
                else:
                    r = self.call('__sx_dict__', ast.List([ast.Tuple([ast.Constant(k.arg), k.value], ast.Load())], ast.Load()))
                e = ast.BinOp(e, ast.BitOr(), r)
            return ast.copy_location(self.call('__sx_kw__', node.func, ast.Tuple(node.args, ast.Load()), e), node)
        return node

    def visit_Expr(self, node):
        # console output: its text is only built when a harness watches the console
        v = node.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('print', 'pprint') and not any(
                isinstance(n, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)) for n in ast.walk(v)):
            self.generic_visit(node)
            none = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
            return ast.copy_location(ast.Expr(self.call('__sx_print__', ast.Lambda(args=none, body=node.value))), node)
        self.generic_visit(node)
        return node

    def visit_Try(self, node):
        self.generic_visit(node)
        if node.handlers:
            node.handlers.insert(0, ast.ExceptHandler(
                type=ast.Name('__sx_Signal__', ast.Load()), name=None, body=[ast.Raise()]))
        return node

    def visit_MatchClass(self, node):
        # only real builtin types take their subject as a positional pattern
        self.generic_visit(node)
        if isinstance(node.cls, ast.Name) and node.cls.id in ('str', 'int', 'bool', 'dict', 'set', 'frozenset') and len(node.patterns) == 1:
            p = node.patterns[0]
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                node.patterns = []
                if p.name is not None:
                    return ast.copy_location(ast.MatchAs(pattern=node, name=p.name), node)
        return node

    def visit_ClassDef(self, node):
        # a base class list must name real classes
        self.generic_visit(node)
        return node

    def visit_AnnAssign(self, node):
        # the annotations are not evaluated, but what typing and dataclasses read from them has to stay
        names = {n.id if isinstance(n, ast.Name) else n.attr for n in ast.walk(node.annotation)
                 if isinstance(n, (ast.Name, ast.Attribute))}
        kept = node.annotation if 'KW_ONLY' in names or 'InitVar' in names else ast.Constant(None)
        if 'ClassVar' in names and node.value is not None:
            self.generic_visit(node)
            return ast.copy_location(ast.Assign([node.target], node.value), node)
        node.annotation = ast.Constant(None)
        self.generic_visit(node)
        node.annotation = kept
        return node

    def visit_arg(self, node):
        node.annotation = None
        return node

    def visit_FunctionDef(self, node):
        node.returns = None
        self.generic_visit(node)
        k = node.args.kwarg
        if k is not None:
            at = 1 if ast.get_docstring(node, clean=False) is not None else 0
            node.body.insert(at, ast.Assign([ast.Name(k.arg, ast.Store())],
                                            self.call('__sx_unkw__', ast.Name(k.arg, ast.Load()))))
        return node


def transform(src, filename):
    tree = ast.parse(src, filename)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


_code = {}
_found = {}


def code_for(path):
    c = _code.get(path)
    if c is None:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        for a, b in LESS_FORKS.get(path, ()):
            src = src.replace(a, b)
        c = _code[path] = transform(src, path)
    return c


STDLIB = os.path.dirname(os.__file__)
PURE = {
    'html': 'html/__init__.py', 'html.parser': 'html/parser.py', '_markupbase': '_markupbase.py',
    'xml.sax.saxutils': 'xml/sax/saxutils.py', 'shlex': 'shlex.py', 'posixpath': 'posixpath.py',
    'urllib.parse': 'urllib/parse.py', 'textwrap': 'textwrap.py', 'difflib': 'difflib.py',
}
# the docutils writer that rest2html() is built on
SITE = '/opt/venv/lib/python3.12/site-packages'
WRITERS = ('docutils.writers._html_base', 'docutils.writers.html4css1')
for _n, _p in zip(WRITERS, ('_html_base.py', 'html4css1/__init__.py')):
    if os.path.isfile(os.path.join(SITE, 'docutils/writers', _p)):
        PURE[_n] = os.path.join(SITE, 'docutils/writers', _p)


# Equal for shlex.split(): the line number is not part of its result, and with whitespace_split
# word characters are treated like every other character that is none of the special ones.
LESS_FORKS = {
    os.path.join(STDLIB, 'shlex.py'): (
        ("            if nextchar == '\\n':\n                self.lineno += 1\n", ''),
        ('nextchar in self.wordchars', '(not self.whitespace_split and nextchar in self.wordchars)')),
}


class Loader:
    """Module namespace of rewritten code.  `roots`: package name -> directory holding the package."""

    def __init__(self, roots, base=None):
        self.roots = roots
        self.modules = {}
        self.base = base
        if base is None:
            self.modules.update(shims.make_modules())
            self.builtins = shims.make_builtins(self)
        else:
            self.modules.update({k: v for k, v in base.modules.items()})
            self.builtins = shims.make_builtins(self)

    def find(self, name):
        key = (name, self.roots.get(name.split('.')[0]), self.base is None)
        r = _found.get(key)
        if r is None:
            r = _found[key] = self._find(name)
        return r

    def _find(self, name):
        top = name.split('.')[0]
        if top in self.roots:
            p = os.path.join(self.roots[top], *name.split('.'))
            if os.path.isfile(os.path.join(p, '__init__.py')):
                return os.path.join(p, '__init__.py'), True
            if os.path.isfile(p + '.py'):
                return p + '.py', False
            return None, False
        if name in PURE and self.base is None:
            return os.path.join(STDLIB, PURE[name]), PURE[name].endswith('__init__.py')
        return None, False

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path, pkg = self.find(name)
        if path is None:
            if name.split('.')[0] in self.roots:
                raise ModuleNotFoundError("No module named %r" % name, name=name)
            __import__(name)
            return sys.modules[name]
        parent = None
        if '.' in name and name.split('.')[0] in self.roots:
            parent = self.load(name.rpartition('.')[0])
            m = self.modules.get(name)
            if m is not None:
                return m
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        self.modules[name] = m
        try:
            exec(code_for(path), m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if parent is not None:
            setattr(parent, name.rpartition('.')[2], m)
        if name == 'html.parser':
            m.HTMLParser.updatepos = lambda self, i, j: j
        if name in WRITERS and hasattr(m, 'os'):
            m.os = shims.ModProxy(m.os, path=self.load('posixpath'))
        if name == 'urllib.parse':
            m.quote = shims.quote
        return m

    def docutils(self, name, fromlist):
        """docutils with our copies of the HTML writers"""
        import docutils.writers
        w = shims.ModProxy(docutils.writers, **{n.rpartition('.')[2]: self.modules[n] for n in WRITERS if n in self.modules})
        m = w if name == 'docutils.writers' else shims.ModProxy(docutils, writers=w)
        for f in fromlist:
            if f != '*' and not hasattr(m, f):
                __import__(name + '.' + f)
        return m

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:len(parts) - level + 1]
            name = '.'.join(parts + ([name] if name else []))
        if name == 'docutils.writers' or name == 'docutils' and 'writers' in (fromlist or ()):
            return self.docutils(name, fromlist or ())
        own = name.split('.')[0] in self.roots or name in self.modules or name in PURE
        if not own:
            return __import__(name, globals, locals, fromlist, 0)
        m = self.load(name)
        if fromlist:
            if hasattr(m, '__path__') and name.split('.')[0] in self.roots:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            self.load(name + '.' + f)
                        except ModuleNotFoundError:
                            pass
            elif name == 'html' and 'parser' in fromlist:
                self.load('html.parser')
            return m
        if '.' in name:
            top = name.split('.')[0]
            if top in self.roots:
                return self.load(top)
            # e.g. import urllib.parse: hand out a stand-in package that holds our submodule
            pk = self.modules.get('*' + top)
            if pk is None:
                pk = self.modules['*' + top] = shims.ModProxy(__import__(top))
            obj = pk
            bits = name.split('.')
            for i, b in enumerate(bits[1:], 2):
                sub = '.'.join(bits[:i])
                v = self.modules.get(sub)
                if v is None:
                    v = shims.ModProxy(getattr(obj, b) if hasattr(obj, b) else __import__(sub, fromlist=['x']))
                obj.__dict__[b] = v
                obj = v
            return pk
        return m
