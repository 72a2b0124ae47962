"""Source loader: parses the package under analysis and resolves names.

Nothing of the analysed package is imported or executed: only `ast.parse` on
the current text of the files below <repo>/src/pyRFtk.
"""
import ast
import os

REPO = os.environ.get('SA_REPO', '/repo')
PKG = 'pyRFtk'
# legacy single file predecessor, not imported by the package and documented as
# obsolete in __init__ ; codebase.py is a stand alone line counter
LEGACY = {'circuit', 'codebase'}
# functions kept from that predecessor: they call methods that no longer exist
# ("this is the old processGTL code ...") and nothing of the package uses them
LEGACY_FUNCS = {'processGTL'}


class Func:
    """a function or method of the analysed package"""
    def __init__(self, node, mod, cls=None, parent=None):
        self.node, self.mod, self.cls, self.parent = node, mod, cls, parent
        self.name = getattr(node, 'name', '<lambda>')
        self.qual = (mod.name + '.' + (cls.name + '.' if cls else '')
                     + (parent.name + '.' if parent else '') + self.name)

    def __repr__(self):
        return f'<Func {self.qual}>'

    @property
    def where(self):
        return f'{self.mod.rel}:{self.node.lineno}'


class Cls:
    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self.methods = {}
        self.bases = []       # filled by link
        self.base_exprs = node.bases
        self.classattrs = {}
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[n.name] = Func(n, mod, self)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.classattrs[t.id] = n.value
                        if isinstance(n.value, ast.Name) and n.value.id in self.methods:
                            self.methods[t.id] = self.methods[n.value.id]

    def mro(self):
        out, seen = [], set()
        def rec(c):
            if c in seen:
                return
            seen.add(c)
            out.append(c)
            for b in c.bases:
                rec(b)
        rec(self)
        return out

    def find(self, name, after=None):
        m = self.mro()
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for c in m:
            if name in c.methods:
                return c.methods[name]
        return None

    def __repr__(self):
        return f'<Cls {self.name}>'


class Module:
    def __init__(self, name, path, repo):
        self.name, self.path = name, path
        self.rel = os.path.relpath(path, repo)
        with open(path, encoding='utf-8') as f:
            self.text = f.read()
        self.lines = self.text.split('\n')
        self.tree = ast.parse(self.text, path)
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        self.collect(self.tree.body)

    def collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if n.name not in LEGACY_FUNCS:
                    self.funcs[n.name] = Func(n, self)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = Cls(n, self)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split('.')[0]] = (
                        'ext', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                for a in n.names:
                    nm = a.asname or a.name
                    if n.level or base.split('.')[0] == PKG:
                        b = base[len(PKG):].lstrip('.') if base.split('.')[0] == PKG else base
                        self.imports[nm] = ('pkg', b, a.name)
                    else:
                        self.imports[nm] = ('ext', base + '.' + a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = n.value
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                self.consts[e.id] = None
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.consts[n.target.id] = n.value
            elif isinstance(n, ast.If):
                if is_main(n.test):
                    # `if __name__ == '__main__': ... else: ...` : the package
                    # imports the else branch
                    self.collect(n.orelse)
                else:
                    self.collect(n.body)
                    self.collect(n.orelse)
            elif isinstance(n, ast.Try):
                self.collect(n.body)
                for h in n.handlers:
                    self.collect(h.body)
                self.collect(n.orelse)
                self.collect(n.finalbody)
            elif isinstance(n, (ast.With, ast.For, ast.While)):
                self.collect(n.body)


def is_main(test):
    """test is (a conjunction containing) __name__ == '__main__'"""
    if isinstance(test, ast.Compare) and isinstance(test.left, ast.Name):
        return test.left.id == '__name__'
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And):
        return any(is_main(v) for v in test.values)
    return False


class Package:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.dir = os.path.join(self.repo, 'src', PKG)
        self.modules = {}
        for fn in sorted(os.listdir(self.dir)):
            if fn.endswith('.py'):
                m = Module(fn[:-3], os.path.join(self.dir, fn), self.repo)
                self.modules[m.name] = m
        self.link()

    def link(self):
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.base_exprs:
                    if isinstance(b, ast.Name):
                        r = self.resolve(m, b.id)
                        if r and r[0] == 'class':
                            c.bases.append(r[1])

    def resolve(self, mod, name, _depth=0):
        """resolve a module level name -> ('func',Func) ('class',Cls)
        ('module',Module) ('ext',dotted) ('const',Module,name,expr) or None"""
        if _depth > 6:
            return None
        if name in mod.classes:
            return ('class', mod.classes[name])
        if name in mod.funcs:
            return ('func', mod.funcs[name])
        if name in mod.imports:
            imp = mod.imports[name]
            if imp[0] == 'ext':
                return ('ext', imp[1])
            _, sub, orig = imp
            if sub == '':
                init = self.modules.get('__init__')
                if init is not None and init is not mod:
                    r = self.resolve(init, orig, _depth + 1)
                    if r:
                        return r
                if orig in self.modules:
                    return ('module', self.modules[orig])
                return None
            tm = self.modules.get(sub.split('.')[0])
            if tm is None:
                return None
            return self.resolve(tm, orig, _depth + 1)
        if name in mod.consts:
            return ('const', mod, name, mod.consts[name])
        return None

    def live_modules(self):
        return [m for n, m in self.modules.items() if n not in LEGACY]

    def cls(self, name):
        for m in self.live_modules():
            if name in m.classes:
                return m.classes[name]
        return None

    def func(self, name):
        for m in self.live_modules():
            if name in m.funcs:
                return m.funcs[name]
        return None

    def all_classes(self):
        return [c for m in self.live_modules() for c in m.classes.values()]

    def all_funcs(self, nested=False):
        """module level functions and methods"""
        for m in self.live_modules():
            yield from m.funcs.values()
            for c in m.classes.values():
                seen = set()
                for f in c.methods.values():
                    if id(f) not in seen:
                        seen.add(id(f))
                        yield f

    def rf_classes(self):
        """classes usable as circuit blocks: they offer getS and ports"""
        return [c for c in self.all_classes() if c.find('getS')]
