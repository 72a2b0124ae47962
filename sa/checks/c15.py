"""C15: only explicit writers touch the file system; data files are never run as code."""
import ast
import re
from .. import lint
from ..common import Interp, Client
from ..terms import walk as twalk

META = {
    'technique': 'effect analysis: enumeration of effect primitives, backward slices of paths and code strings through '
                 'the call graph, branch facts at removals',
    'explanation': 'Every reference to a primitive that can write, remove, start a process, open a connection or run '
                   'text as code is enumerated in the package (import time code included); for each the analysis '
                   'follows the path or text backwards through assignments, parameters and callers.',
    'rules': {
        'write': 'a file is opened for writing only under a path that comes from a parameter of an explicit writer '
                 '(a public function named write*/save*, possibly through helpers), or is the package\'s log',
        'remove': 'the only file removed is the log of the package, on paths where its size is known to be zero',
        'process': 'no process is started and no connection opened',
        'code': 'text is evaluated only by the model reader (rfGTL) and never the text of a file itself',
        'read': 'all other files are opened with a literal read mode',
    },
    'assumptions': ['external libraries have the effects their documentation names'],
}

W, R, P, X, M = 'write', 'remove', 'process', 'code', 'mode'
PRIM = {
    'open': M, 'io.open': M, 'os.open': W, 'codecs.open': M, 'os.fdopen': M, 'gzip.open': M,
    'os.remove': R, 'os.unlink': R, 'os.rmdir': R, 'os.removedirs': R, 'shutil.rmtree': R, 'os.truncate': R,
    'os.rename': R, 'os.renames': R, 'os.replace': R, 'shutil.move': R,
    'os.mkdir': W, 'os.makedirs': W, 'os.link': W, 'os.symlink': W, 'os.mknod': W, 'os.chmod': W, 'os.chown': W,
    'os.utime': W, 'os.write': W,
    'shutil.copy': W, 'shutil.copyfile': W, 'shutil.copy2': W, 'shutil.copytree': W,
    'tempfile.mkstemp': W, 'tempfile.mkdtemp': W, 'tempfile.NamedTemporaryFile': W, 'tempfile.TemporaryFile': W,
    'tempfile.TemporaryDirectory': W,
    'numpy.save': W, 'numpy.savez': W, 'numpy.savez_compressed': W, 'numpy.savetxt': W, 'numpy.memmap': W,
    'matplotlib.pyplot.savefig': W, 'matplotlib.pyplot.imsave': W, 'logging.FileHandler': W,
    'logging.basicConfig': W, 'scipy.io.savemat': W, 'json.dump': None, 'csv.writer': None,
    'os.system': P, 'os.popen': P, 'os.fork': P, 'os.kill': P, 'os.killpg': P, 'os.startfile': P,
    'eval': X, 'exec': X, 'compile': X, '__import__': X, 'importlib.import_module': X, 'runpy.run_path': X,
    'runpy.run_module': X, 'execfile': X,
    'pickle.load': X, 'pickle.loads': X, 'pickle.Unpickler': X, 'marshal.load': X, 'marshal.loads': X,
    'shelve.open': X, 'code.interact': X, 'yaml.load': X, 'joblib.load': X,
}
PREFIX = {'subprocess.': P, 'socket.': P, 'urllib.': P, 'http.': P, 'ftplib.': P, 'smtplib.': P, 'requests.': P,
          'multiprocessing.': P, 'os.spawn': P, 'os.exec': P, 'webbrowser.': P, 'ctypes.': P, 'xmlrpc.': P,
          'asyncio.': P, 'pty.': P}
METHOD = {'write_text': W, 'write_bytes': W, 'tofile': W, 'savefig': W, 'to_csv': W, 'unlink': R, 'rmdir': R,
          'mkdir': W, 'touch': W, 'symlink_to': W, 'rename': R, 'writelines': None}


def aliases(mod):
    """name -> dotted external name, function level imports included"""
    out = {}
    skip = lint.main_lines(mod)
    for n in ast.walk(mod.tree):
        if lint.in_ranges(getattr(n, 'lineno', 0), skip):
            continue
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
            for a in n.names:
                out[a.asname or a.name] = f'{n.module}.{a.name}'
    return out


def dotted(e, al):
    chain = []
    while isinstance(e, ast.Attribute):
        chain.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    head = al.get(e.id)
    if head is None:
        if chain:
            return None
        head = e.id
    return '.'.join([head] + chain[::-1])


class Fun:
    """a function (or the module level code) with its own statements"""
    def __init__(self, mod, node, parent):
        self.mod, self.node, self.parent = mod, node, parent
        self.name = getattr(node, 'name', '<module>')

    @property
    def params(self):
        if not isinstance(self.node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            return []
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]]

    @property
    def qual(self):
        return f'{self.mod.name}.{self.name}'


def functions(pkg):
    out = []
    for m in pkg.live_modules():
        out.append(Fun(m, m.tree, None))
        for f in lint.functions(m):
            out.append(Fun(m, f, None))
    return out


def own(fun):
    """nodes of a function without those of nested functions"""
    skip = lint.main_lines(fun.mod) + lint.legacy_lines(fun.mod)
    body = fun.node.body
    todo = list(body)
    while todo:
        n = todo.pop()
        if lint.in_ranges(getattr(n, 'lineno', 0), skip):
            continue
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo += n.decorator_list + n.args.defaults
            continue
        todo += list(ast.iter_child_nodes(n))


def run(ck):
    funs = functions(ck.pkg)
    byname = {}
    for f in funs:
        byname.setdefault(f.name, []).append(f)
    ctx = Ctx(ck, funs, byname)
    n = 0
    for f in funs:
        al = aliases(f.mod)
        ck.saw(f'{f.qual} ({f.mod.rel}:{getattr(f.node, "lineno", 1)})')
        called = {}
        for x in own(f):
            if isinstance(x, ast.Call):
                called[id(x.func)] = x
        for x in own(f):
            kind = name = None
            if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load):
                name = dotted(x, al)
                if name in PRIM:
                    kind = PRIM[name]
                elif name:
                    kind = next((k for p, k in PREFIX.items() if (name + '.').startswith(p) and name + '.' != p
                                 or name.startswith(p)), None)
                if kind is None and isinstance(x, ast.Attribute) and x.attr in METHOD and id(x) in called:
                    if name is None or name.split('.')[0] not in al.values():
                        kind, name = METHOD[x.attr], '.' + x.attr
                if isinstance(x, ast.Name) and name in PRIM and '.' not in name and shadowed(f, name):
                    kind = None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'getattr' and x.args and \
                    dotted(x.args[0], al) in ('os', 'shutil', 'subprocess', 'builtins') and \
                    not (len(x.args) > 1 and isinstance(x.args[1], ast.Constant)
                         and f'os.{x.args[1].value}' not in PRIM):
                kind, name = P, 'getattr of ' + ast.unparse(x.args[0])
            if kind:
                n += 1
                ck.rule(kind, ctx.site, f, x, name, kind, called.get(id(x)), al)
    # np.load with allow_pickle
    for f in funs:
        for x in own(f):
            if isinstance(x, ast.Call):
                for k in x.keywords:
                    if k.arg == 'allow_pickle' and not (isinstance(k.value, ast.Constant) and not k.value.value):
                        ck.bad('code', f'{f.qual}:allow_pickle', f'{f.mod.rel}:{x.lineno}',
                               'a data file may be unpickled (allow_pickle)')
    ck.anchor('effect primitives', n >= 6)
    for r in ('process',):
        ck.ok(r, f'{len(funs)} functions and modules searched')


def shadowed(f, name):
    return name in f.params


class Ctx:
    def __init__(self, ck, funs, byname):
        self.funs, self.byname = funs, byname
        self.log = None
        for m in ck.pkg.live_modules():
            al = aliases(m)
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Call) and dotted(x.func, al) in ('logging.basicConfig', 'logging.FileHandler'):
                    for k in x.keywords:
                        if k.arg == 'filename':
                            v = k.value
                            if isinstance(v, ast.Name) and isinstance(m.consts.get(v.id), ast.Constant):
                                self.log = (m, v.id, m.consts[v.id].value)
                            elif isinstance(v, ast.Constant):
                                self.log = (m, None, v.value)

    # -- one site
    def site(self, ck, f, x, name, kind, call, al):
        where = f'{f.mod.rel}:{x.lineno}'
        key = f'{f.qual}:{name}'
        if kind == M:
            if call is None:
                ck.bad('write', key, where, f'{name} is passed on as a value: the mode it is used with is unknown')
                return
            mode = next((k.value for k in call.keywords if k.arg == 'mode'),
                        call.args[1] if len(call.args) > 1 else None)
            modes = self.strings(f, mode)
            if mode is None or (modes is not None and all(not set(s) & set('wax+') for s in modes)):
                ck.ok('read', key, where)
                return
            kind = W
        if kind == W:
            if call is None:
                ck.bad('write', key, where, f'{name} is passed on as a value')
                return
            if name in ('logging.basicConfig', 'logging.FileHandler'):
                v = next((k.value for k in call.keywords if k.arg == 'filename'), call.args[0] if call.args else None)
                if v is None or self.is_log(f, v):
                    ck.ok('write', key + ' (log)', where)
                else:
                    ck.bad('write', key, where, 'the log is not written to a fixed file of the package')
                return
            p = call.args[0] if call.args else next(
                (k.value for k in call.keywords if k.arg in ('file', 'path', 'name', 'fname', 'filename')), None)
            if name.startswith('.') and name not in ('.tofile', '.savefig', '.to_csv'):
                p = call.func.value
            why = self.writer_path(f, p, set())
            if why is None:
                ck.ok('write', key, where)
            else:
                ck.bad('write', key, where, f'{name} writes to a path that is not one a caller gave to an explicit '
                                            f'writer: {why}')
        elif kind == R:
            args = call.args if call else []
            if not name.startswith('.') and len(args) == 1 and self.is_log(f, args[0]):
                if self.empty_log(ck, f, call):
                    ck.ok('remove', key, where)
                else:
                    ck.bad('remove', key, where, 'the log is removed although its size is not known to be zero')
            else:
                what = ast.unparse(args[0]) if args else ast.unparse(x)
                ck.bad('remove', key, where, f'{name} removes or renames {what}')
        elif kind == P:
            ck.bad('process', key, where, f'{name} starts a process, opens a connection or hides an effect')
        elif kind == X:
            if name in ('eval', 'exec', 'compile') and call is not None and call.args:
                text = self.file_text(f, call.args[0], set())
                if text:
                    ck.bad('code', key, where, f'{name} runs the text of a file ({text})')
                elif name == 'eval' and self.only_model_reader(f, set()):
                    ck.ok('code', f'{key} line expression {ast.unparse(call.args[0])}', where)
                else:
                    ck.bad('code', key, where, f'{name} outside the model format')
            else:
                ck.bad('code', key, where, f'{name} runs data as code')

    # -- helpers
    def assigns(self, f, name):
        out = []
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        out.append(n.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name) and e.id == name:
                                if isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) == len(t.elts):
                                    out.append(n.value.elts[i])
                                else:
                                    out.append(n.value)
            elif isinstance(n, ast.NamedExpr) and n.target.id == name:
                out.append(n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                out.append(n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
                    out.append(n.iter)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None and any(
                            isinstance(x, ast.Name) and x.id == name for x in ast.walk(i.optional_vars)):
                        out.append(i.context_expr)
        return out

    def strings(self, f, e):
        """possible literal values of an expression, or None"""
        if e is None:
            return ['r']
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return [e.value]
        if isinstance(e, ast.IfExp):
            a, b = self.strings(f, e.body), self.strings(f, e.orelse)
            return a + b if a is not None and b is not None else None
        if isinstance(e, ast.Name):
            if e.id in f.params:
                return None
            vs = self.assigns(f, e.id) or ([f.mod.consts[e.id]] if f.mod.consts.get(e.id) is not None else [])
            out = []
            for v in vs:
                s = self.strings(f, v)
                if s is None:
                    return None
                out += s
            return out or None
        return None

    def is_log(self, f, e):
        if self.log is None:
            return False
        if isinstance(e, ast.Constant):
            return e.value == self.log[2] and '/' not in str(e.value)
        if isinstance(e, ast.Name) and e.id not in f.params:
            if e.id == self.log[1] and '/' not in str(self.log[2]) and (
                    f.node is f.mod.tree or not self.assigns(f, e.id)):
                # rebound nowhere else in the module
                stores = [n for n in ast.walk(f.mod.tree) if isinstance(n, ast.Name) and n.id == e.id
                          and isinstance(n.ctx, ast.Store)]
                return len(stores) <= 1
            vs = self.assigns(f, e.id)
            return bool(vs) and f.node is not f.mod.tree and all(self.is_log(f, v) for v in vs)
        return False

    def empty_log(self, ck, f, call):
        """the removal only happens where getsize(log) is zero"""
        fn = None
        for g in ck.pkg.all_funcs():
            if g.node is f.node:
                fn = g
        if fn is None:
            return False
        hits = []

        class Cl(Client):
            max_states = 16

            def key(self, st):
                return frozenset((t.id, b) for t, b in st.facts.items() if 'getsize' in repr(t))

            def call(self, I, st, node, fv, args, kws, *a):
                if node.lineno == call.lineno and 'remove' in ast.unparse(node.func) or \
                        'unlink' in ast.unparse(node.func):
                    hits.append([(t, b) for t, b in st.facts.items() if 'getsize' in repr(t) or 'st_size' in repr(t)])
                return None
        I = Interp(ck.pkg, Cl())
        I.run(fn)
        return bool(hits) and all(any(zero(t, b) for t, b in h) for h in hits)

    def callers(self, f):
        """(caller, call) of a function by name"""
        out = []
        for g in self.funs:
            for n in own(g):
                if isinstance(n, ast.Call):
                    nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr \
                        if isinstance(n.func, ast.Attribute) else None
                    if nm == f.name:
                        out.append((g, n))
        return out

    def arg_of(self, f, call, pname):
        for k in call.keywords:
            if k.arg == pname:
                return k.value
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        if names and names[0] == 'self' and isinstance(call.func, ast.Attribute):
            names = names[1:]
        if pname in names and names.index(pname) < len(call.args):
            return call.args[names.index(pname)]
        return None

    def is_writer(self, f):
        return bool(re.match(r'(write|save)', f.name, re.I)) and not f.name.startswith('_')

    def writer_path(self, f, e, seen):
        """None when the path comes from a parameter of an explicit writer,
        else the reason"""
        if e is None:
            return 'no path'
        names = [n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)]
        bad = [ast.unparse(n) for n in ast.walk(e) if isinstance(n, ast.Call)
               and re.search(r'environ|getenv|gettempdir|tempfile|expanduser|getcwd', ast.unparse(n.func))]
        if bad:
            return f'it uses {bad[0]}'
        good, why = False, f'{ast.unparse(e)} does not come from a parameter'
        for nm in names:
            if nm in ('self', 'os', 'len', 'str'):
                continue
            vs = self.assigns(f, nm)
            if nm in f.params:
                if self.is_writer(f):
                    good = True
                elif (f.qual, nm) not in seen:
                    cs = [c for c in self.callers(f)]
                    if not cs or not f.name.startswith('_') and f.name[0] != '<' and not self.inner(f):
                        why = f'{f.name} is not an explicit writer'
                        continue
                    rs = []
                    for g, c in cs:
                        a = self.arg_of(f, c, nm)
                        rs.append(self.writer_path(g, a, seen | {(f.qual, nm)}) if a is not None else 'default path')
                    if all(r is None for r in rs):
                        good = True
                    else:
                        why = next(r for r in rs if r)
            elif vs and (f.qual, nm) not in seen:
                rs = [self.writer_path(f, v, seen | {(f.qual, nm)}) for v in vs]
                if any(r is None for r in rs):
                    good = True
            elif self.outer(f) is not None and (nm in self.outer(f).params or self.assigns(self.outer(f), nm)):
                r = self.writer_path(self.outer(f), ast.Name(nm, ast.Load()), seen | {(f.qual, nm)})
                if r is None:
                    good = True
                else:
                    why = r
        return None if good else why

    def inner(self, f):
        return self.outer(f) is not None

    def outer(self, f):
        best = None
        for g in self.funs:
            if g.mod is f.mod and g.node is not f.node and isinstance(g.node, ast.FunctionDef) and \
                    g.node.lineno < getattr(f.node, 'lineno', 0) and g.node.end_lineno >= f.node.end_lineno:
                if best is None or g.node.lineno > best.node.lineno:
                    best = g
        return best

    def file_text(self, f, e, seen):
        """the expression holds text read from a file"""
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
                if nm in ('read', 'readline', 'readlines', 'open', 'getlines', 'read_text', 'genfromtxt'):
                    return ast.unparse(n)
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and (f.qual, n.id) not in seen:
                for v in self.assigns(f, n.id):
                    t = self.file_text(f, v, seen | {(f.qual, n.id)})
                    if t:
                        return t
                if n.id in f.params and f.name != '__init__':
                    for g, c in self.callers(f):
                        a = self.arg_of(f, c, n.id)
                        if a is not None:
                            t = self.file_text(g, a, seen | {(f.qual, n.id)})
                            if t:
                                return t
        return None

    def only_model_reader(self, f, seen):
        if f.mod.name == 'rfGTL':
            return True
        if f.qual in seen:
            return True
        cs = self.callers(f)
        o = self.outer(f)
        if o is not None:
            return self.only_model_reader(o, seen | {f.qual})
        return bool(cs) and f.node is not f.mod.tree and all(
            self.only_model_reader(g, seen | {f.qual}) for g, _ in cs)


def zero(t, b):
    """the fact says that a file size is zero"""
    if t.op == 'not':
        return zero(t.a[0], not b)
    r = repr(t)
    if t.op == 'truthy' or t.op in ('call', 'attr', 'ext'):
        return not b
    if t.op == 'eq' and any(getattr(x, 'op', '') == 'const' and x.a[0] == 0 for x in t.a):
        return b
    if t.op == 'cmp':
        op = t.a[0]
        l, rr = t.a[1], t.a[2]
        c = rr.a[0] if rr.op == 'const' else None
        if c == 0 and op in ('>', 'Gt'):
            return not b
        if c == 0 and op in ('<=', 'LtE'):
            return b
        if c == 1 and op in ('<', 'Lt'):
            return b
        if c == 1 and op in ('>=', 'GtE'):
            return not b
        c = l.a[0] if l.op == 'const' else None
        if c == 0 and op in ('<', 'Lt'):
            return not b
        if c == 0 and op in ('>=', 'GtE'):
            return b
    return False
