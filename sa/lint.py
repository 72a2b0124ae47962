"""scope, binding and attribute tables computed from the source (no execution)"""
import ast
import builtins
import functools
import glob
import importlib
import os
import symtable

from .loader import is_main, LEGACY_FUNCS

BUILTINS = set(dir(builtins)) | {'__name__', '__file__', '__package__', '__doc__', '__spec__', '__path__',
                                 '__builtins__', '__class__', '__loader__'}


# --------------------------------------------------------------------------
# scopes

def module_bindings(mod):
    """names bound when the module is imported by the package"""
    out = set()

    def target(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

    def body(stmts):
        for n in stmts:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    out.add(a.asname or a.name.split('.')[0])
            elif isinstance(n, ast.If):
                if is_main(n.test):
                    body(n.orelse)
                else:
                    body(n.body)
                    body(n.orelse)
            elif isinstance(n, ast.Try):
                body(n.body)
                for h in n.handlers:
                    body(h.body)
                body(n.orelse)
                body(n.finalbody)
            elif isinstance(n, (ast.For, ast.While, ast.With)):
                if isinstance(n, ast.For):
                    target(n.target)
                if isinstance(n, ast.With):
                    for i in n.items:
                        if i.optional_vars is not None:
                            target(i.optional_vars)
                body(n.body)
                body(getattr(n, 'orelse', []))
            elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Delete, ast.Expr)):
                target(n)
    body(mod.tree.body)
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Global):
            out.update(n.names)
    return out


def main_lines(mod):
    """line ranges of `if __name__ == '__main__'` bodies"""
    out = []
    for n in mod.tree.body:
        if isinstance(n, ast.If) and is_main(n.test) and n.body:
            out.append((n.body[0].lineno, max(getattr(x, 'end_lineno', x.lineno) for x in n.body)))
    return out


def legacy_lines(mod):
    out = []
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.FunctionDef) and n.name in LEGACY_FUNCS:
            out.append((n.lineno, n.end_lineno))
    return out


def in_ranges(line, rs):
    return any(a <= line <= b for a, b in rs)


class Scope:
    def __init__(self, node, parent, kind):
        self.node, self.parent, self.kind = node, parent, kind
        self.bound, self.globals, self.nonlocals = set(), set(), set()
        self.loads = []       # Name nodes
        self.children = []


def scopes(tree):
    """scope tree of a module"""
    root = Scope(tree, None, 'module')

    def args(s, a):
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            s.bound.add(x.arg)

    def visit(n, s):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            s.bound.add(n.name)
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                visit(d, s)
            c = Scope(n, s, 'function')
            s.children.append(c)
            args(c, n.args)
            for x in n.body:
                visit(x, c)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                visit(d, s)
            c = Scope(n, s, 'function')
            s.children.append(c)
            args(c, n.args)
            visit(n.body, c)
            return
        if isinstance(n, ast.ClassDef):
            s.bound.add(n.name)
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                visit(d, s)
            c = Scope(n, s, 'class')
            s.children.append(c)
            for x in n.body:
                visit(x, c)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            visit(n.generators[0].iter, s)
            c = Scope(n, s, 'comp')
            s.children.append(c)
            for i, g in enumerate(n.generators):
                visit(g.target, c)
                if i:
                    visit(g.iter, c)
                for x in g.ifs:
                    visit(x, c)
            if isinstance(n, ast.DictComp):
                visit(n.key, c)
                visit(n.value, c)
            else:
                visit(n.elt, c)
            return
        if isinstance(n, ast.NamedExpr):
            t = s
            while t.kind == 'comp':
                t = t.parent
            t.bound.add(n.target.id)
            visit(n.value, s)
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                s.loads.append(n)
            else:
                s.bound.add(n.id)
                if isinstance(n.ctx, ast.Del):
                    s.loads.append(n)
            return
        if isinstance(n, ast.Global):
            s.globals.update(n.names)
            return
        if isinstance(n, ast.Nonlocal):
            s.nonlocals.update(n.names)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                s.bound.add(a.asname or a.name.split('.')[0])
            return
        if isinstance(n, ast.ExceptHandler) and n.name:
            s.bound.add(n.name)
        for x in ast.iter_child_nodes(n):
            visit(x, s)
    for x in tree.body:
        visit(x, root)
    return root


def unresolved(mod, modnames):
    """Name loads that no scope binds -> [(name, node, scope)]"""
    out = []
    skip = main_lines(mod) + legacy_lines(mod)

    def rec(s):
        for n in s.loads:
            if in_ranges(n.lineno, skip):
                continue
            t, found = s, False
            first = True
            while t is not None and t.kind != 'module':
                if n.id in t.globals:
                    t = None
                    break
                if (t.kind != 'class' or first) and n.id in t.bound and n.id not in t.nonlocals:
                    found = True
                    break
                if t.kind != 'comp':
                    first = False
                t = t.parent
            if not found and n.id not in modnames and n.id not in BUILTINS:
                out.append((n.id, n, s))
        for c in s.children:
            rec(c)
    rec(scopes(mod.tree))
    return out


# --------------------------------------------------------------------------
# definite assignment of local variables

class Unassigned:
    """paths of one function on which a local variable is read before it is
    bound.  Loops are taken to run at least once; branch conditions that are
    repeated are correlated."""
    LIMIT = 64

    def __init__(self, fnode):
        self.f = fnode
        s = Scope(fnode, None, 'function')
        root = scopes(ast.Module(body=[fnode], type_ignores=[]))
        self.scope = root.children[0] if root.children else s
        self.locals = self.scope.bound - self.scope.globals - self.scope.nonlocals
        self.report = {}
        # a local captured by a nested function is only checked in its own function
        a = fnode.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}

    def run(self):
        st = [(frozenset(self.params), frozenset())]
        self.loopstack = []
        self.trystack = []
        self.exits = []
        self.caught = 0
        self.exits += self.block(self.f.body, st)
        return self.report

    # a state is (assigned names, facts); facts = {(cond text, truth)}
    def merge(self, sts):
        out = list(dict.fromkeys(sts))
        if len(out) > self.LIMIT:
            a = frozenset.intersection(*(x[0] for x in out))
            # keep the states apart by what is assigned at most
            by = {}
            for x in out:
                by.setdefault(x[0], []).append(x[1])
            out = [(k, frozenset.intersection(*v)) for k, v in by.items()]
            if len(out) > self.LIMIT:
                # give up on correlation: assume what any state has assigned
                out = [(frozenset.union(*(x[0] for x in out)), frozenset())]
        return out

    def bind(self, sts, names):
        names = set(names)
        if not names:
            return sts
        return [(a | names, frozenset(f for f in fs if not (f[2] & names))) for a, fs in sts]

    def reads(self, e, sts):
        """check the names read by an expression in evaluation order"""
        if e is None:
            return sts
        for n in self.order(e):
            if isinstance(n, ast.NamedExpr):
                sts = self.bind(sts, [n.target.id])
            elif n.id in self.locals:
                miss = [s for s in sts if n.id not in s[0]]
                if miss:
                    if not self.caught:
                        self.report.setdefault(n.id, n)
                    sts = [s if n.id in s[0] else (s[0] | {n.id}, s[1]) for s in sts]
        return sts

    def order(self, e):
        """Name loads of an expression, not entering nested functions;
        sub-expressions that may not be evaluated are left out"""
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                yield e
            return
        if isinstance(e, ast.Lambda):
            return
        if isinstance(e, ast.BoolOp):
            yield from self.order(e.values[0])
            return
        if isinstance(e, ast.IfExp):
            yield from self.order(e.test)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            bound = set()
            for g in e.generators:
                bound |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            for x in ast.walk(e):
                if isinstance(x, ast.Lambda):
                    return
            for n in ast.walk(e):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in bound:
                    yield n
            return
        if isinstance(e, ast.NamedExpr):
            yield from self.order(e.value)
            yield e
            return
        for x in ast.iter_child_nodes(e):
            yield from self.order(x)

    def cond(self, e, sts):
        """split states on a branch condition -> (true, false)"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, sts)
            return f, t
        if isinstance(e, ast.BoolOp):
            cur, other = sts, []
            for v in e.values:
                t, f = self.cond(v, cur)
                if isinstance(e.op, ast.And):
                    cur, other = t, other + f
                else:
                    cur, other = f, other + t
            other = self.merge(other)
            return (cur, other) if isinstance(e.op, ast.And) else (other, cur)
        sts = self.reads(e, sts)
        if isinstance(e, ast.Constant):
            return (sts, []) if e.value else ([], sts)
        neg = False
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and \
                isinstance(e.ops[0], (ast.IsNot, ast.NotEq, ast.NotIn)):
            op = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}[type(e.ops[0])]()
            key, neg = ast.dump(ast.Compare(e.left, [op], e.comparators)), True
        else:
            key = ast.dump(e)
        names = frozenset(n.id for n in ast.walk(e) if isinstance(n, ast.Name))
        t, f = [], []
        # no environment variable has an empty name
        implied = None
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], ast.In) and \
                ast.unparse(e.comparators[0]) == 'os.environ':
            implied = ast.dump(e.left)
        for a, fs in sts:
            if implied and any(x[0] == implied and not x[1] for x in fs):
                f.append((a, fs))
                continue
            known = next((x[1] for x in fs if x[0] == key), None)
            if known is None or known is not neg:
                t.append((a, fs | {(key, not neg, names)}))
            if known is None or known is neg:
                f.append((a, fs | {(key, neg, names)}))
        return t, f

    def block(self, stmts, sts):
        for s in stmts:
            if not sts:
                return sts
            sts = self.merge(self.stmt(s, sts))
        return sts

    def names(self, t):
        return [n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]

    def touched(self, n):
        """names whose content a statement may change (method calls, item
        assignments): facts about them are dropped"""
        out = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                b = x.func.value
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    b = b.value
                if isinstance(b, ast.Name) and x.func.attr in (
                        'pop', 'append', 'extend', 'update', 'clear', 'remove', 'insert', 'setdefault', 'popitem'):
                    out.add(b.id)
            if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                b = x
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    b = b.value
                if isinstance(b, ast.Name):
                    out.add(b.id)
        return out

    def drop(self, sts, names):
        return [(a, frozenset(f for f in fs if not (f[2] & names))) for a, fs in sts] if names else sts

    def stmt(self, s, sts):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return self.bind(sts, [s.name])
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return self.bind(sts, [a.asname or a.name.split('.')[0] for a in s.names])
        if isinstance(s, ast.If):
            t, f = self.cond(s.test, sts)
            return self.block(s.body, t) + self.block(s.orelse, f)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            sts = self.reads(s.iter, sts)
            sts = self.bind(sts, self.names(s.target))
            return self.loop(s, sts)
        if isinstance(s, ast.While):
            t, f = self.cond(s.test, sts)
            return self.loop(s, t)
        if isinstance(s, ast.With):
            for i in s.items:
                sts = self.reads(i.context_expr, sts)
                if i.optional_vars is not None:
                    sts = self.bind(sts, self.names(i.optional_vars))
            return self.block(s.body, sts)
        if isinstance(s, ast.Try):
            self.trystack.append([])
            caught = any(h.type is None or any(isinstance(x, ast.Name) and x.id in (
                'NameError', 'UnboundLocalError', 'Exception', 'BaseException') for x in ast.walk(h.type))
                for h in s.handlers)
            self.caught += caught
            end = self.tryblock(s.body, sts)
            self.caught -= caught
            thrown = self.merge(self.trystack.pop())
            out = self.block(s.orelse, end)
            for h in s.handlers:
                hs = self.bind(thrown, [h.name]) if h.name else thrown
                hs = self.drop(hs, self.touched(ast.Module(body=s.body, type_ignores=[])))
                out = out + self.block(h.body, hs)
            if s.finalbody:
                out = self.block(s.finalbody, self.merge(out))
            return out
        if isinstance(s, (ast.Return, ast.Raise)):
            for e in ast.iter_child_nodes(s):
                sts = self.reads(e, sts)
            if isinstance(s, ast.Return):
                self.exits += sts
            return []
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.loopstack:
                self.loopstack[-1][isinstance(s, ast.Continue)].extend(sts)
            return []
        if isinstance(s, ast.Assert):
            t, f = self.cond(s.test, sts)
            return t
        if isinstance(s, ast.Delete):
            return self.drop(sts, self.touched(s))
        if isinstance(s, ast.Assign):
            sts = self.reads(s.value, sts)
            for t in s.targets:
                sts = self.targetreads(t, sts)
            ns = [n for t in s.targets for n in self.names(t)]
            sts = self.drop(self.bind(sts, ns), self.touched(s))
            for t in s.targets:
                if isinstance(t, ast.Name) and isinstance(s.value, ast.Constant):
                    nm = ast.Name(t.id, ast.Load())
                    new = {(ast.dump(nm), bool(s.value.value), frozenset([t.id])),
                           (ast.dump(ast.Compare(nm, [ast.Is()], [ast.Constant(None)])), s.value.value is None,
                            frozenset([t.id]))}
                    sts = [(a, fs | new) for a, fs in sts]
            return sts
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                sts = self.reads(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), sts)
            else:
                sts = self.targetreads(s.target, sts)
            sts = self.reads(s.value, sts)
            return self.drop(self.bind(sts, self.names(s.target)), self.touched(s))
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                sts = self.reads(s.value, sts)
                return self.bind(sts, self.names(s.target))
            return sts
        if isinstance(s, ast.Expr):
            return self.drop(self.reads(s.value, sts), self.touched(s))
        return sts

    def targetreads(self, t, sts):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                sts = self.reads(n, sts)
        return sts

    def tryblock(self, stmts, sts):
        for s in stmts:
            if not sts:
                return sts
            if not (isinstance(s, ast.Assign) and isinstance(s.value, (ast.Name, ast.Constant))
                    and all(isinstance(t, ast.Name) for t in s.targets)):
                self.trystack[-1].extend(sts)       # may fail before it completes
            sts = self.merge(self.stmt(s, sts))
        return sts

    def loop(self, s, sts):
        """one or two iterations"""
        endless = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
        out, cur = [], sts
        for _ in range(2):
            self.loopstack.append(([], []))
            end = self.block(s.body, cur)
            brk, cont = self.loopstack.pop()
            end = self.merge(end + cont)
            out += brk
            cur = end
            if isinstance(s, ast.While):
                t, f = self.cond(s.test, end)
                out += f if not endless else []
                cur = t
            else:
                out += end
                cur = self.bind(end, self.names(s.target))
        out = self.merge(out)
        if s.orelse:
            out = self.block(s.orelse, out)
        return out


def functions(mod):
    """every function of a module that the package can run"""
    skip = main_lines(mod) + legacy_lines(mod)
    for n in ast.walk(mod.tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and not in_ranges(n.lineno, skip):
            yield n


# --------------------------------------------------------------------------
# what external modules define

SITE = ['/opt/venv/lib/python3.12/site-packages'] + sorted(glob.glob('/opt/venv/lib/python3*/site-packages'))


def _pyi_names(path):
    try:
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        return None
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
            out.add(n.value)
    return out


@functools.lru_cache(None)
def external_names(dotted):
    """names an external module offers, or None when not known"""
    top = dotted.split('.')[0]
    import sys
    if top in sys.stdlib_module_names:
        try:
            return frozenset(dir(importlib.import_module(dotted)))
        except Exception:       # noqa
            return None
    if top == 'numpy':
        for s in SITE:
            p = os.path.join(s, *dotted.split('.'), '__init__.pyi')
            if not os.path.exists(p):
                p = os.path.join(s, *dotted.split('.')) + '.pyi'
            r = toplevel_names(p)
            if r is not None:
                d = os.path.dirname(p) if p.endswith('__init__.pyi') else None
                if d:
                    r = r | {x.split('.')[0] for x in os.listdir(d)}
                return frozenset(r)
    return None


def toplevel_names(path):
    try:
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        return None
    out = {'__version__', '__name__', '__file__'}

    def body(b):
        for n in b:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    out.add((a.asname or a.name).split('.')[0])
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            out.add(x.id)
            elif isinstance(n, (ast.If, ast.Try)):
                body(n.body)
                body(n.orelse)
    body(tree.body)
    return out


@functools.lru_cache(None)
def known_attributes():
    """attribute names of builtin types, numpy arrays and of the classes of
    the external modules the package uses"""
    out = set()
    for t in vars(builtins).values():
        out |= set(dir(t))
    for m in ('re', 'logging', 'inspect', 'time', 'os', 'warnings', 'copy', 'io', 'traceback', 'collections',
              'datetime', 'types', 'string', 'pathlib'):
        mm = importlib.import_module(m)
        for x in vars(mm).values():
            if isinstance(x, type):
                out |= set(dir(x))
    import re
    out |= set(dir(re.compile(''))) | set(dir(re.match('', '')))
    found = False
    for s in SITE:
        p = os.path.join(s, 'numpy', '__init__.pyi')
        if os.path.exists(p):
            found = True
            with open(p, encoding='utf-8') as f:
                tree = ast.parse(f.read())
            for c in ast.walk(tree):
                if isinstance(c, ast.ClassDef):
                    for n in ast.walk(c):
                        if isinstance(n, ast.FunctionDef):
                            out.add(n.name)
                        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                            out.add(n.target.id)
            break
    return frozenset(out), found


@functools.lru_cache(None)
def site_defines(name):
    """some class of matplotlib or scipy defines an attribute of this name"""
    import re
    pat = re.compile(r'def %s\b|\b%s\s*=|[\'"]%s[\'"]' % ((re.escape(name),) * 3))
    for s in SITE:
        for lib in ('matplotlib', 'scipy', 'numpy'):
            for d, _, fs in os.walk(os.path.join(s, lib)):
                if 'tests' in d:
                    continue
                for f in fs:
                    if f.endswith(('.py', '.pyi')):
                        try:
                            with open(os.path.join(d, f), encoding='utf-8', errors='replace') as h:
                                if pat.search(h.read()):
                                    return True
                        except OSError:
                            pass
    return False
