"""effects of the code that only runs with diagnostics on"""
import ast

MUTATING = {'append', 'extend', 'pop', 'insert', 'remove', 'clear', 'update', 'setdefault', 'sort', 'reverse', 'popitem', 'add',
            'discard', 'fill', 'resize', 'itemset', 'put', 'partition', 'setflags', 'byteswap', '__setitem__', '__delitem__',
            '__setattr__', 'write', 'writelines'}
LOGGERS = {'logident', 'ident'}
STMTS = (ast.stmt,)


def own(node):
    """nodes of a function without those of the functions in it"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))


def hidden(tree):
    """names of comprehensions, which are not those of the function"""
    out = set()
    for c in ast.walk(tree):
        if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            names = {x.id for g in c.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            first = {id(x) for x in ast.walk(c.generators[0].iter)}
            out |= {id(x) for x in ast.walk(c) if isinstance(x, ast.Name) and x.id in names and id(x) not in first}
    return out


def never(e):
    """a condition that is false by itself"""
    return isinstance(e, ast.Constant) and not e.value or \
        isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And) and any(never(v) for v in e.values)


def is_logit(e):
    return isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id == 'logit' or \
        isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == 'logit'


class Switches:
    """names that are true only with diagnostics on"""
    def __init__(self, fn, outer=()):
        self.fn = fn
        a = fn.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        defs = {}
        hid = hidden(fn)
        for n in own(fn):
            if id(n) in hid:
                continue
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            defs.setdefault(x.id, []).append(n.value if t is x else None)
            elif isinstance(n, ast.NamedExpr):
                defs.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                defs.setdefault(n.id, [])
        count = {}
        for n in own(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in hid:
                count[n.id] = count.get(n.id, 0) + 1
        self.names = {x for x in outer if x not in defs and x not in self.params}
        while True:
            more = {x for x, vs in defs.items() if x not in self.names and x not in self.params and vs and
                    len(vs) == count.get(x) and all(v is not None and self.implies(v) for v in vs)}
            if not more:
                break
            self.names |= more

    def implies(self, e):
        """the expression is only true with diagnostics on"""
        if is_logit(e):
            return True
        if isinstance(e, ast.Name):
            return e.id in self.names
        if isinstance(e, ast.BoolOp):
            return (any if isinstance(e.op, ast.And) else all)(self.implies(v) for v in e.values)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'isEnabledFor':
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'bool' and e.args:
            return self.implies(e.args[0])
        if isinstance(e, ast.Constant):
            return not e.value
        if isinstance(e, ast.IfExp):
            return self.implies(e.body) and self.implies(e.orelse) or self.implies(e.test) and self.implies(e.orelse)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], ast.Is) and \
                isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is True:
            return self.implies(e.left)
        return False


def is_log(call):
    f = call.func
    return isinstance(f, ast.Name) and f.id in LOGGERS or \
        isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'tLogger'


def roots(fn, sw):
    """the maximal pieces that only run with diagnostics on: lists of statements and expressions"""
    out = []

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            return
        if isinstance(n, ast.If):
            visit(n.test)
            if never(n.test):
                pass
            elif sw.implies(n.test):
                out.append(n.body)
            else:
                for x in n.body:
                    visit(x)
            for x in n.orelse:
                visit(x)
            return
        if isinstance(n, ast.IfExp) and sw.implies(n.test):
            visit(n.test)
            out.append([n.body])
            visit(n.orelse)
            return
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.And):
            on = False
            for v in n.values:
                if on:
                    out.append([v])
                else:
                    visit(v)
                    on = sw.implies(v)
            return
        if isinstance(n, ast.Call) and is_log(n):
            out.append([n])
            return
        for x in ast.iter_child_nodes(n):
            visit(x)
    for s in fn.body:
        visit(s)
    return out


class Function:
    def __init__(self, fn, outer=()):
        self.fn = fn
        self.sw = Switches(fn, outer)
        self.regions = roots(fn, self.sw)
        self.inside = set()
        self.hid = hidden(fn)
        for r in self.regions:
            for s in r:
                for n in ast.walk(s):
                    self.inside.add(id(n))
        self.parent = {}
        for n in ast.walk(fn):
            for f, v in ast.iter_fields(n):
                if isinstance(v, list):
                    for k, x in enumerate(v):
                        if isinstance(x, ast.AST):
                            self.parent[id(x)] = (n, f, k)
                elif isinstance(v, ast.AST):
                    self.parent[id(v)] = (n, f, None)
        self.stores = {}
        for n in own(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in self.hid:
                self.stores.setdefault(n.id, []).append(n)
        self.shared = set()
        for n in own(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.shared |= set(n.names)
        self.inner = set()      # names read by the functions in this one
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                self.inner |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)
                               and id(x) not in self.inside}

    def private(self, name):
        """every definition of the name is inside a region"""
        return name in self.stores and name not in self.shared and name not in self.sw.params and \
            all(id(n) in self.inside for n in self.stores[name])

    # ------------------------------------------------ reads reached by a store
    def loads(self, e, name):
        return e is not None and any(
            isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and id(n) not in self.inside and
            id(n) not in self.hid for n in ast.walk(e))

    def kills(self, target, name):
        return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) and id(n) not in self.hid for n in ast.walk(target))

    def walk(self, stmts, name):
        """'read', 'dead' (overwritten or left) or 'live'"""
        for s in stmts:
            r = self.stmt(s, name)
            if r != 'live':
                return r
        return 'live'

    def stmt(self, s, name):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return 'live'
        if isinstance(s, ast.If):
            if self.loads(s.test, name):
                return 'read'
            r = [self.walk(s.body, name), self.walk(s.orelse, name)]
            if self.sw.implies(s.test):
                r = r[1:]
            return 'read' if 'read' in r else 'live' if 'live' in r else 'dead'
        if isinstance(s, (ast.For, ast.AsyncFor)):
            if self.loads(s.iter, name):
                return 'read'
            if self.kills(s.target, name):
                return 'read' if self.walk(s.orelse, name) == 'read' else 'live'
            r = [self.walk(s.body, name), self.walk(s.orelse, name)]
            return 'read' if 'read' in r else 'live'
        if isinstance(s, ast.While):
            if self.loads(s.test, name):
                return 'read'
            r = [self.walk(s.body, name), self.walk(s.orelse, name)]
            return 'read' if 'read' in r else 'live'
        if isinstance(s, ast.Try):
            r = [self.walk(s.body + s.orelse, name)] + [self.walk(h.body, name) for h in s.handlers]
            if 'read' in r:
                return 'read'
            f = self.walk(s.finalbody, name)
            return f if f != 'live' else r[0] if r[0] == 'dead' and all(x == 'dead' for x in r) else 'live'
        if isinstance(s, (ast.With, ast.AsyncWith)):
            if any(self.loads(i.context_expr, name) for i in s.items):
                return 'read'
            return self.walk(s.body, name)
        if self.loads(s, name):
            return 'read'
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name and id(s) not in self.inside:
            return 'read'
        if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            return 'dead' if isinstance(s, (ast.Return, ast.Raise)) else 'live'
        if id(s) not in self.inside and isinstance(s, (ast.Assign, ast.AnnAssign)):
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                if self.kills(t, name):
                    return 'dead'
        return 'live'

    def reaches(self, node, name):
        """a definition at this node is read by code that runs without diagnostics"""
        if name in self.inner:
            return True
        n = node
        while n is not self.fn:
            p, f, k = self.parent[id(n)]
            if isinstance(n, ast.stmt) or k is not None and isinstance(p, ast.stmt):
                if k is not None and f in ('body', 'orelse', 'finalbody') and isinstance(n, ast.stmt):
                    r = self.walk(getattr(p, f)[k + 1:], name)
                    if r != 'live':
                        return r == 'read'
                if isinstance(p, (ast.For, ast.While)) and f == 'body':
                    # once more around
                    if isinstance(p, ast.While) and self.loads(p.test, name):
                        return True
                    if not (isinstance(p, ast.For) and self.kills(p.target, name)):
                        if self.walk(p.body, name) == 'read':
                            return True
                if isinstance(p, ast.Try) and f == 'body':
                    if any(self.walk(h.body, name) == 'read' for h in p.handlers) or self.walk(p.finalbody, name) == 'read':
                        return True
            elif isinstance(n, ast.expr) and isinstance(p, ast.stmt):
                # an expression of a statement: the rest of it
                if self.loads(p, name):
                    return True
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) and p is not self.fn:
                return False
            n = p
        return False

    def root(self, e):
        while isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred)):
            e = e.value
        return e

    def effects(self):
        """(node, text) of the effects of the regions"""
        for reg in self.regions:
            ids = {id(n) for s in reg for n in ast.walk(s)}
            todo = list(reg)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    todo += [g.iter for g in n.generators] + [c for g in n.generators for c in g.ifs]
                    todo += [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]
                    continue
                todo += list(ast.iter_child_nodes(n))
                if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)):
                    yield n, 'return', 'leaves the function'
                elif isinstance(n, (ast.Raise, ast.Assert)):
                    p, caught = n, False
                    while id(p) in ids and id(p) in self.parent:
                        q, f, _ = self.parent[id(p)]
                        caught = caught or isinstance(q, ast.Try) and f == 'body' and id(q) in ids
                        p = q
                    if not caught:
                        yield n, 'raise', 'raises an error'
                elif isinstance(n, (ast.Break, ast.Continue)):
                    p = n
                    while id(p) in self.parent and not isinstance(p, (ast.For, ast.While)):
                        p = self.parent[id(p)][0]
                    if id(p) not in ids:
                        yield n, 'loop', 'leaves a step of a loop'
                elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    if n.id in self.shared:
                        yield n, n.id, f'assigns the shared variable {n.id}'
                    elif self.reaches(n, n.id):
                        yield n, n.id, f'assigns {n.id}, which is read without diagnostics'
                elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    r = self.root(n)
                    if not (isinstance(r, ast.Name) and self.private(r.id)):
                        yield n, ast.unparse(n), f'assigns {ast.unparse(n)}'
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATING:
                    r = self.root(n.func.value)
                    if isinstance(r, ast.Name) and not self.private(r.id) and r.id not in ('tLogger', 'sys', 'np', 'logging'):
                        # a copy made on the spot is nobody else's
                        yield n, ast.unparse(n.func), f'calls {ast.unparse(n.func)}'


def attributes_read(pkg):
    """attributes and names read by code that runs without diagnostics"""
    out = set()
    for m in pkg.live_modules():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                out.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                out.add(n.value)
    return out


def functions(m):
    """(qualified name, node, nodes of the functions around it)"""
    out = []

    def rec(n, path, outer):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append(('.'.join(path + [c.name]), c, outer))
                rec(c, path + [c.name], outer + [c])
            elif isinstance(c, ast.ClassDef):
                rec(c, path + [c.name], outer)
            else:
                rec(c, path, outer)
    rec(m.tree, [m.name], [])
    return out


def regions(ck):
    read = attributes_read(ck.pkg)
    total = 0
    for m in ck.pkg.live_modules():
        if m.name == 'config':
            continue
        sws = {}
        for qual, fn, outer in functions(m):
            names = ()
            for o in outer:
                names = Switches(o, names).names
            f = Function(fn, names)
            if not f.regions:
                continue
            total += len(f.regions)
            ck.saw(f'{qual} ({m.rel}:{fn.lineno})')
            found = False
            for n, what, text in f.effects():
                if isinstance(n, ast.Attribute) and n.attr not in read:
                    continue
                found = True
                ck.bad('region', f'{qual}|{what}', f'{m.rel}:{n.lineno}', f'code that only runs with diagnostics on {text}')
            if not found:
                ck.ok('region', f'{qual}: {len(f.regions)} pieces', f'{m.rel}:{fn.lineno}')
        for n in ast.walk(m.tree):
            if is_logit(n) and isinstance(n.ctx, (ast.Store, ast.Del)):
                ck.bad('switch', f'{m.name}|{ast.unparse(n)}', f'{m.rel}:{n.lineno}', f'assigns {ast.unparse(n)}')
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    n.func.value.id == 'logit' and n.func.attr in MUTATING:
                ck.bad('switch', f'{m.name}|{ast.unparse(n.func)}', f'{m.rel}:{n.lineno}', f'calls {ast.unparse(n.func)}')
            elif is_logit(n):
                ck.ok('switch', f'{m.name}: {ast.unparse(n)}', f'{m.rel}:{n.lineno}')
    ck.anchor('pieces of code controlled by the switches', total > 100)
    ck.notes['pieces of code that only run with diagnostics on'] = total
