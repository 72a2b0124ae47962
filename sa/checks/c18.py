"""C18: no operation dies of an unresolved name, attribute or keyword."""
import ast
import copy
from .. import lint
from ..loader import LEGACY, is_main

META = {
    'technique': 'scope resolution, definite-assignment dataflow and call-signature matching on the syntax tree',
    'explanation': 'Every name, attribute, module member, call signature, keyword and literal dictionary key used by '
                   'the package is matched with the definitions found in the source (and in the stubs of the '
                   'external modules); local variables and attributes set by constructors are followed by a '
                   'definite-assignment dataflow analysis with correlated branch conditions.',
    'rules': {
        'names': 'every name that is read is bound in an enclosing scope, in the module or in the builtins',
        'assigned': 'no path reads a local variable before it is bound (loops taken to run at least once)',
        'module': 'a member of an imported module is one that this module defines',
        'selfattr': 'an attribute of the receiver is set by the constructor on all its paths, or set elsewhere by the '
                    'class; it is not read before the constructor sets it',
        'attribute': 'an attribute of any other object is one that some known class defines',
        'call': 'a call to a function of the package matches its parameters',
        'keyword': 'a keyword passed to a function of the package that takes **kwargs is mentioned by that function '
                   'or the functions it hands its keywords to',
        'key': 'a literal dictionary key that is read is one that is written somewhere in the package',
        'global': 'a variable declared global/nonlocal is bound by the scope it refers to',
    },
    'assumptions': ['loop bodies whose results are read after the loop run at least once (property text of the '
                    'caller: frequencies, ports and blocks are not empty)',
                    'the external modules are those installed in the build environment'],
}


def modules(pkg):
    return [m for m in pkg.live_modules()]


def run(ck):
    PKG[0] = ck.pkg
    for m in modules(ck.pkg):
        ck.rule('names', names, m)
        ck.rule('module', members, m)
        ck.rule('assigned', assigned, m)
    for c in ck.pkg.all_classes():
        ck.rule('selfattr', selfattrs, c)
    uni = universe(ck.pkg)
    keys = written_keys(ck.pkg)
    for m in modules(ck.pkg):
        ck.rule('attribute', attributes, m, uni)
        ck.rule('key', readkeys, m, keys)
        ck.rule('call', calls, m)
    ck.anchor('modules', len(modules(ck.pkg)) > 10)


# ------------------------------------------------------------------ names

def names(ck, m):
    b = lint.module_bindings(m)
    # names visible in __init__ through "from .x import y" count as bound
    bad = lint.unresolved(m, b)
    seen = set()
    for name, n, s in bad:
        f = encl(m, n)
        if (name, f) in seen:
            continue
        seen.add((name, f))
        ck.bad('names', f'{m.name}:{f}:{name}', f'{m.rel}:{n.lineno}', f'the name {name} is not defined')
    if not bad:
        ck.ok('names', m.name, m.rel)
    # imports from the package resolve
    skip = lint.main_lines(m)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom) and not lint.in_ranges(n.lineno, skip):
            base = n.module or ''
            if n.level or base.split('.')[0] == 'pyRFtk':
                sub = base if n.level else base[len('pyRFtk'):].lstrip('.')
                for a in n.names:
                    if a.name == '*':
                        continue
                    if sub == '':
                        tm = ck.pkg.modules.get('__init__')
                        good = a.name in ck.pkg.modules or (tm and a.name in lint.module_bindings(tm))
                    else:
                        tm = ck.pkg.modules.get(sub.split('.')[0])
                        good = tm is not None and a.name in lint.module_bindings(tm)
                    if not good:
                        ck.bad('names', f'{m.name}:import:{a.name}', f'{m.rel}:{n.lineno}',
                               f'{"." * n.level}{base} does not define {a.name}')
    for n in ast.walk(m.tree):
        if isinstance(n, ast.FunctionDef) and not lint.in_ranges(n.lineno, skip):
            ck.saw(f'{m.name}.{n.name} ({m.rel}:{n.lineno})')


def encl(m, node):
    best, nm = None, '<module>'
    for f in ast.walk(m.tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and f.lineno <= node.lineno <= f.end_lineno:
            if best is None or f.lineno >= best:
                best, nm = f.lineno, f.name
    return nm


def assigned(ck, m):
    for f in lint.functions(m):
        r = lint.Unassigned(f).run()
        for name, n in r.items():
            ck.bad('assigned', f'{m.name}:{f.name}:{name}', f'{m.rel}:{n.lineno}',
                   f'the local variable {name} of {f.name} may be read before it is bound')
        if not r:
            ck.ok('assigned', f'{m.name}.{f.name}', f'{m.rel}:{f.lineno}')


def members(ck, m):
    """attribute chains that start at an imported module"""
    skip = lint.main_lines(m) + lint.legacy_lines(m)
    mods = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                mods[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
            known = lint.external_names(n.module)
            for a in n.names:
                if known is not None and a.name not in known and a.name != '*' and \
                        lint.external_names(f'{n.module}.{a.name}') is None and \
                        not lint.in_ranges(n.lineno, skip):
                    ck.bad('module', f'{m.name}:{n.module}.{a.name}', f'{m.rel}:{n.lineno}',
                           f'{n.module} has no {a.name}')
    shadow = set()
    for f in ast.walk(m.tree):
        if isinstance(f, (ast.FunctionDef, ast.Lambda)):
            a = f.args
            shadow |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    nb = 0
    for n in ast.walk(m.tree):
        if not isinstance(n, ast.Attribute) or lint.in_ranges(n.lineno, skip):
            continue
        chain, b = [n.attr], n.value
        while isinstance(b, ast.Attribute):
            chain.append(b.attr)
            b = b.value
        if not isinstance(b, ast.Name) or b.id not in mods or b.id in shadow:
            continue
        chain.reverse()
        dotted = mods[b.id]
        known = None
        for i, x in enumerate(chain):
            known = lint.external_names(dotted)
            if known is None:
                break
            if i == len(chain) - 1 or lint.external_names(f'{dotted}.{x}') is None:
                if x not in known:
                    ck.bad('module', f'{m.name}:{encl(m, n)}:{dotted}.{x}', f'{m.rel}:{n.lineno}',
                           f'the module {dotted} has no member {x}')
                else:
                    nb += 1
                break
            dotted = f'{dotted}.{x}'
    if nb:
        ck.ok('module', f'{m.name} ({nb} members)', m.rel)


# ------------------------------------------------------------------ receiver attributes

SEP = '·'


class SelfNames(ast.NodeTransformer):
    """self.X -> the variable self·X"""
    def __init__(self, me, methods):
        self.me, self.methods = me, methods

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.Name) and n.value.id == self.me and n.attr not in self.methods:
            return ast.copy_location(ast.Name(self.me + SEP + n.attr, n.ctx), n)
        return n

    def visit_FunctionDef(self, n):
        if n is self.top:
            return self.generic_visit(n)
        return n

    def visit_Lambda(self, n):
        return n


class SelfUnassigned(lint.Unassigned):
    def __init__(self, fnode, cls, me, init, basesets):
        super().__init__(fnode)
        self.cls, self.me, self.basesets = cls, me, basesets
        self.locals = set()
        for n in ast.walk(fnode):
            if isinstance(n, ast.Name) and n.id.startswith(me + SEP):
                self.locals.add(n.id)
        self.params = set(self.params) | {me + SEP + a for a in init}

    def cond(self, e, sts):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'hasattr' and len(e.args) == 2 \
                and isinstance(e.args[0], ast.Name) and e.args[0].id == self.me \
                and isinstance(e.args[1], ast.Constant):
            nm = self.me + SEP + str(e.args[1].value)
            t = [(a | {nm}, fs) for a, fs in sts]
            f = [(a, fs) for a, fs in sts if nm not in a]
            return t, f
        return super().cond(e, sts)

    def reads(self, e, sts):
        sts = super().reads(e, sts)
        if e is None:
            return sts
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                v = n.func.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                    b = self.cls.find(n.func.attr, after=self.cls)
                    if b is not None:
                        sts = self.bind(sts, [self.me + SEP + a for a in self.basesets(b)])
                elif isinstance(v, ast.Name) and v.id == self.me:
                    b = self.cls.find(n.func.attr)
                    if b is not None:
                        sts = self.bind(sts, [self.me + SEP + a for a in self.basesets(b)])
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and n.args \
                    and isinstance(n.args[0], ast.Name) and n.args[0].id == self.me:
                if isinstance(n.args[1], ast.Constant):
                    sts = self.bind(sts, [self.me + SEP + str(n.args[1].value)])
                else:
                    sts = self.bind(sts, self.locals)     # any of them
        return sts

    def stmt(self, s, sts):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return sts
        return super().stmt(s, sts)


def receiver(f):
    a = f.node.args.args
    if f.cls is None or not a:
        return None
    for d in f.node.decorator_list:
        if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod'):
            return None
    return a[0].arg


def stored_attrs(f):
    """attributes a method (nested functions included) sets on its receiver"""
    me = receiver(f)
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and \
                n.value.id == me:
            out.add(n.attr)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3:
            if isinstance(n.args[1], ast.Constant):
                out.add(str(n.args[1].value))
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) \
                and n.value.attr == '__dict__' and isinstance(n.slice, ast.Constant):
            out.add(str(n.slice.value))
    return out


def dynamic(cls):
    for c in cls.mro():
        for f in c.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and \
                        len(n.args) == 3 and not isinstance(n.args[1], ast.Constant) and f.name == '__init__':
                    return True
    return False


def strings(cls):
    out = set()
    for c in cls.mro():
        for n in ast.walk(c.node):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                out.add(n.value)
    return out


def definite(f, cls, memo, depth=0):
    """attributes a method sets on all its normal exits"""
    if f.qual in memo:
        return memo[f.qual]
    memo[f.qual] = set()
    me = receiver(f)
    if me is None or depth > 6:
        return set()
    a = analyse(f, cls, set(), memo, depth)
    if a.exits:
        d = frozenset.intersection(*(x[0] for x in a.exits))
        memo[f.qual] = {x[len(me) + 1:] for x in d if x.startswith(me + SEP)} & set(stored_of_chain(f, cls))
    return memo[f.qual]


def stored_of_chain(f, cls):
    out = set()
    for c in cls.mro():
        for g in c.methods.values():
            out |= stored_attrs(g)
    return out


def analyse(f, cls, init, memo, depth=0):
    me = receiver(f)
    node = copy.deepcopy(f.node)
    methods = {n for c in cls.mro() for n in c.methods} | {n for c in cls.mro() for n in c.classattrs} | \
        {'__dict__', '__class__'}
    tr = SelfNames(me, methods)
    tr.top = node
    node = tr.visit(node)
    a = SelfUnassigned(node, f.cls or cls, me, init, lambda b: definite(b, f.cls or cls, memo, depth + 1))
    a.run()
    return a


def selfattrs(ck, cls):
    mro = cls.mro()
    unknown_base = any(not isinstance(b, ast.Name) or not any(x.name == b.id for x in c.bases)
                       for c in mro for b in c.base_exprs
                       if not (isinstance(b, ast.Name) and b.id == 'object'))
    methods = {n for c in mro for n in c.methods} | {n for c in mro for n in c.classattrs}
    subs = [c for c in ck.pkg.all_classes() if cls in c.mro() and c is not cls]
    submembers = {n for c in subs for n in c.methods} | {n for c in subs for n in c.classattrs}
    stored, stored_by = set(), {}
    for c in mro + subs:
        for f in c.methods.values():
            for a in stored_attrs(f):
                stored.add(a)
                stored_by.setdefault(a, set()).add(f.name)
    # stored from outside: x.attr = ... anywhere in the package
    outside = set()
    for m in ck.pkg.live_modules():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                    not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                outside.add(n.attr)
    dyn = strings(cls) if dynamic(cls) else set()
    memo = {}
    init = cls.find('__init__')
    idef = definite(init, cls, memo) if init else set()
    later = {a for a, by in stored_by.items() if by - {'__init__'}}
    ok = 0
    for f in cls.methods.values():
        if f.cls is not cls or f.name in ('__getattr__', '__getattribute__'):
            continue
        me = receiver(f)
        if me is None:
            continue
        guarded = {str(n.args[1].value) for n in ast.walk(f.node) if isinstance(n, ast.Call)
                   and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr') and len(n.args) > 1
                   and isinstance(n.args[1], ast.Constant)}
        tryattr = handled(f.node, ('AttributeError',))
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and \
                    isinstance(n.ctx, (ast.Load, ast.Del)):
                a = n.attr
                if a in methods or a in stored or a in outside or a in dyn or a in submembers or a in guarded or \
                        a in dir(object) or a in ('__dict__',) or unknown_base or \
                        lint.in_ranges(n.lineno, tryattr):
                    ok += 1
                    continue
                ck.bad('selfattr', f'{cls.name}.{f.name}:{a}', f'{f.mod.rel}:{n.lineno}',
                       f'no method sets the attribute {a} of {cls.name}')
        # order / conditional initialisation
        start = set() if f.name == '__init__' else idef | later | outside | dyn | guarded
        if f.name == '__init__':
            start = set(guarded)
        if f.name in ('__setstate__', '__state__', '__new__', '__deepcopy__', '__getstate__') or unknown_base:
            continue
        an = analyse(f, cls, start, dict(memo))
        for nm, n in an.report.items():
            a = nm[len(me) + 1:]
            if a not in stored or lint.in_ranges(n.lineno, tryattr):
                continue      # reported above
            ck.bad('selfattr', f'{cls.name}.{f.name}:{a}:unset', f'{f.mod.rel}:{n.lineno}',
                   f'{cls.name}.{f.name} reads self.{a}, which '
                   + ('is set later in the constructor' if f.name == '__init__'
                      else 'the constructor does not set on all its paths'))
        # an attribute that later methods need must not be lost: everything
        # read unguarded in this class is set
    ck.ok('selfattr', f'{cls.name} ({ok} uses)', f'{cls.mod.rel}:{cls.node.lineno}')


def handled(node, excs):
    """line ranges of try bodies that handle one of these exceptions"""
    out = []
    for n in ast.walk(node):
        if isinstance(n, ast.Try):
            for h in n.handlers:
                t = h.type
                names = [x.id for x in ast.walk(t) if isinstance(x, ast.Name)] if t is not None else ['*']
                if '*' in names or 'Exception' in names or any(e in names for e in excs):
                    out.append((n.body[0].lineno, n.body[-1].end_lineno))
                    break
    return out


# ------------------------------------------------------------------ attributes of other objects

def universe(pkg):
    out = set()
    for m in pkg.live_modules():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
        out |= set(lint.module_bindings(m))
    for c in pkg.all_classes():
        out |= set(c.classattrs)
    return out


def attributes(ck, m, uni):
    skip = lint.main_lines(m) + lint.legacy_lines(m)
    known, full = lint.known_attributes()
    nb = 0
    imported = {a.asname or a.name.split('.')[0] for n in ast.walk(m.tree) if isinstance(n, ast.Import)
                for a in n.names}
    tryattr = handled(m.tree, ('AttributeError',))
    hasattrs = {str(n.args[1].value) for n in ast.walk(m.tree) if isinstance(n, ast.Call)
                and isinstance(n.func, ast.Name) and n.func.id == 'hasattr' and len(n.args) > 1
                and isinstance(n.args[1], ast.Constant)}
    for n in ast.walk(m.tree):
        if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load) or lint.in_ranges(n.lineno, skip):
            continue
        b = n.value
        while isinstance(b, ast.Attribute):
            b = b.value
        if isinstance(n.value, ast.Name) and n.value.id == 'self':
            continue
        if isinstance(b, ast.Name) and b.id in imported:
            continue
        if n.attr in uni or n.attr in known or n.attr in hasattrs or lint.in_ranges(n.lineno, tryattr):
            nb += 1
            continue
        if not full or lint.site_defines(n.attr):
            nb += 1
            continue
        ck.bad('attribute', f'{m.name}:{encl(m, n)}:{n.attr}', f'{m.rel}:{n.lineno}',
               f'no known class has an attribute {n.attr}')
    if nb:
        ck.ok('attribute', f'{m.name} ({nb} uses)', m.rel)


# ------------------------------------------------------------------ dictionary keys

def written_keys(pkg):
    out = set()
    for m in pkg.live_modules():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Dict):
                out |= {k.value for k in n.keys if isinstance(k, ast.Constant)}
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.slice, ast.Constant):
                out.add(n.slice.value)
            elif isinstance(n, ast.keyword) and n.arg:
                out.add(n.arg)
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('setdefault', 'pop', 'get') and n.args and \
                        isinstance(n.args[0], ast.Constant):
                    out.add(n.args[0].value)
            elif isinstance(n, (ast.Tuple, ast.List)) and n.elts and isinstance(n.elts[0], ast.Constant):
                out |= {e.value for e in n.elts if isinstance(e, ast.Constant)}
            elif isinstance(n, ast.Compare):
                # 'k' in d : presence is tested
                if isinstance(n.left, ast.Constant):
                    out.add(n.left.value)
            elif isinstance(n, ast.FunctionDef):
                out |= {a.arg for a in n.args.args + n.args.kwonlyargs}
            elif isinstance(n, ast.For) and isinstance(n.iter, (ast.List, ast.Tuple)):
                out |= {e.value for e in n.iter.elts if isinstance(e, ast.Constant)}
    return {k for k in out if isinstance(k, str)}


def readkeys(ck, m, keys):
    skip = lint.main_lines(m) + lint.legacy_lines(m)
    tk = handled(m.tree, ('KeyError',))
    nb = 0
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Constant) and \
                isinstance(n.slice.value, str) and not lint.in_ranges(n.lineno, skip + tk):
            k = n.slice.value
            base = ast.unparse(n.value)
            if base.split('.')[-1] in ('logit', 'rcParams', 'environ', '_nameToLevel', '_levelToName'):
                continue
            if k in keys:
                nb += 1
            else:
                ck.bad('key', f'{m.name}:{encl(m, n)}:{k}', f'{m.rel}:{n.lineno}',
                       f'nothing in the package writes the key {k!r} that is read from {base}')
    if nb:
        ck.ok('key', f'{m.name} ({nb} keys)', m.rel)


# ------------------------------------------------------------------ calls

def calls(ck, m):
    skip = lint.main_lines(m) + lint.legacy_lines(m)
    root = lint.scopes(m.tree)
    nb = [0]

    # class that encloses a line
    def cls_of(line):
        for c in m.classes.values():
            if c.node.lineno <= line <= c.node.end_lineno:
                return c
        return None

    local = {}
    def collect(s):
        for c in s.children:
            if c.kind == 'function':
                local[id(c.node)] = c
            collect(c)
    collect(root)

    def enclosing(n):
        """scopes from the innermost function outwards"""
        out = [c for c in local.values() if isinstance(c.node, ast.FunctionDef)
               and c.node.lineno <= n.lineno <= c.node.end_lineno]
        return sorted(out, key=lambda c: -c.node.lineno)

    fdefs = {}
    for x in ast.walk(m.tree):
        if isinstance(x, ast.FunctionDef):
            fdefs.setdefault(x.name, []).append(x)

    for n in ast.walk(m.tree):
        if not isinstance(n, ast.Call) or lint.in_ranges(n.lineno, skip):
            continue
        targets, skipself, what, fam = [], False, None, None
        fn = n.func
        if isinstance(fn, ast.Name):
            sh = [c for c in enclosing(n) if fn.id in c.bound]
            if sh:
                # a nested function of that name, bound once
                ds = [d for d in fdefs.get(fn.id, []) if d in list(ast.walk(sh[0].node))]
                binds = [x for x in ast.walk(sh[0].node) if isinstance(x, ast.Name) and x.id == fn.id
                         and isinstance(x.ctx, ast.Store)]
                if len(ds) == 1 and not binds:
                    targets, what = [ds[0].args], fn.id
                    fam = [ds[0]]
            else:
                r = ck.pkg.resolve(m, fn.id)
                if r and r[0] == 'func':
                    if r[1].node.decorator_list:
                        continue
                    targets, what, fam = [r[1].node.args], fn.id, family(ck.pkg, r[1])
                elif r and r[0] == 'class':
                    init = r[1].find('__init__')
                    if init is None:
                        continue
                    targets, skipself, what, fam = [init.node.args], True, fn.id, clsfamily(r[1])
        elif isinstance(fn, ast.Attribute):
            v = fn.value
            c = cls_of(n.lineno)
            if isinstance(v, ast.Name) and v.id == 'self' and c is not None:
                f = c.find(fn.attr)
                cands = [f] if f else []
                for sc in ck.pkg.all_classes():
                    if c in sc.mro() and sc.find(fn.attr) not in cands + [None]:
                        cands.append(sc.find(fn.attr))
                targets = [f.node.args for f in cands]
                skipself, what, fam = True, f'self.{fn.attr}', clsfamily(c)
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and c is not None:
                f = c.find(fn.attr, after=c)
                if f:
                    targets, skipself, what, fam = [f.node.args], True, f'super().{fn.attr}', clsfamily(f.cls)
            else:
                # some object of the package: at least one class must accept it
                if fn.attr in lint.known_attributes()[0]:
                    continue
                cands = {id(k.find(fn.attr)): k.find(fn.attr) for k in ck.pkg.all_classes() if k.find(fn.attr)}
                if cands and not any(isinstance(f.node.decorator_list, list) and f.node.decorator_list
                                     for f in cands.values()):
                    errs = [match(f.node.args, n, True) for f in cands.values()]
                    if all(errs):
                        ck.bad('call', f'{m.name}:{encl(m, n)}:.{fn.attr}', f'{m.rel}:{n.lineno}',
                               f'no method {fn.attr} of the package accepts this call: {errs[0]}')
                    else:
                        nb[0] += 1
                continue
        for a in targets:
            e = match(a, n, skipself)
            if e:
                ck.bad('call', f'{m.name}:{encl(m, n)}:{what}', f'{m.rel}:{n.lineno}', f'call of {what}: {e}')
            else:
                nb[0] += 1
        if targets and all(a.kwarg for a in targets) and fam:
            a = targets[0]
            named = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            for kw in n.keywords:
                if kw.arg and kw.arg not in named:
                    if mentions(fam, kw.arg):
                        ck.ok('keyword', f'{what}({kw.arg}=)', f'{m.rel}:{n.lineno}')
                    else:
                        ck.bad('keyword', f'{m.name}:{encl(m, n)}:{what}:{kw.arg}', f'{m.rel}:{n.lineno}',
                               f'the keyword {kw.arg} passed to {what} is not used by it')
    if nb[0]:
        ck.ok('call', f'{m.name} ({nb[0]} calls)', m.rel)


def match(a, call, skipself):
    """error text when a call cannot be bound to the parameters"""
    pos = [x.arg for x in a.posonlyargs + a.args]
    if skipself:
        pos = pos[1:]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if npos > len(pos) and not a.vararg:
        return f'{npos} positional arguments for {len(pos)} parameters'
    kws = [k.arg for k in call.keywords if k.arg]
    names = set(pos[len(a.posonlyargs):] if not skipself else pos) | {x.arg for x in a.kwonlyargs}
    for k in kws:
        if k not in names and not a.kwarg:
            return f'unknown keyword {k}'
        if k in pos[:npos]:
            return f'parameter {k} given twice'
    if not star and not dstar:
        nd = len(a.defaults)
        required = pos[:len(pos) - nd] if nd else pos
        for p in required[npos:]:
            if p not in kws:
                return f'missing argument {p}'
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and x.arg not in kws:
                return f'missing keyword {x.arg}'
    return None


def clsfamily(c, pkg=None):
    return family(pkg or PKG[0], c)


PKG = [None]


def family(pkg, f):
    """a function or class and those of the package it hands **kwargs to;
    None when keywords go somewhere unknown"""
    out, todo = [], [f]
    while todo:
        g = todo.pop()
        nodes = [k.node for k in g.mro()] if hasattr(g, 'mro') else [g.node]
        for node in nodes:
            if node in out:
                continue
            out.append(node)
            for n in ast.walk(node):
                if not isinstance(n, ast.Call) or not any(
                        k.arg is None and any(isinstance(x, ast.Name) and 'kw' in x.id for x in ast.walk(k.value))
                        for k in n.keywords):
                    continue
                if isinstance(n.func, ast.Name):
                    r = pkg.resolve(g.mod, n.func.id)
                    if r and r[0] in ('func', 'class'):
                        todo.append(r[1])
                    elif n.func.id not in ('dict', 'type', 'print'):
                        return None
    return out


def mentions(fam, kw):
    for node in fam:
        for n in ast.walk(node):
            if isinstance(n, ast.Constant) and n.value == kw:
                return True
            if isinstance(n, ast.arg) and n.arg == kw:
                return True
    return False
