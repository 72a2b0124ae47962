"""C20: results and files depend on the inputs only."""
import ast
from .. import lint
from .c15 import aliases, dotted, functions, own

META = {
    'technique': 'interprocedural taint analysis of nondeterministic sources (order, time, randomness, addresses, environment)',
    'explanation': 'Sources of nondeterminism (iteration order of sets and directories, clocks, random numbers, object '
                   'addresses, hashes, environment, uninitialised arrays) are enumerated in the package and followed '
                   'forward through assignments, loops, string building and calls to returned values, attributes, '
                   'branch decisions and written files.',
    'rules': {
        'value': 'no clock, random number, address, hash, environment value or uninitialised memory reaches a returned '
                 'value, an attribute, a branch decision or a file, except the dated comment line of a writer',
        'order': 'no order taken from a set or a directory listing reaches a returned value, an attribute or a file '
                 'without being sorted first',
    },
    'assumptions': ['dictionaries keep insertion order (Python >= 3.7)',
                    'text made for people (str(), log lines, printed output, error messages) is not a result'],
}

VALUE, ORDER, SET = 'value', 'order', 'set'
SOURCES = {
    'time.time', 'time.time_ns', 'time.localtime', 'time.gmtime', 'time.strftime', 'time.ctime', 'time.asctime',
    'time.perf_counter', 'time.monotonic', 'time.process_time', 'time.perf_counter_ns', 'time.monotonic_ns',
    'datetime.datetime.now', 'datetime.datetime.today', 'datetime.datetime.utcnow', 'datetime.date.today',
    'id', 'hash', 'os.getpid', 'os.urandom', 'os.getenv', 'os.environ', 'os.getcwd', 'os.getlogin', 'os.cpu_count',
    'os.times', 'os.uname', 'socket.gethostname', 'getpass.getuser', 'os.environb', 'sys.flags', 'sys.getrefcount',
    'numpy.empty', 'numpy.empty_like', 'numpy.ndarray', 'gc.get_count', 'threading.get_ident',
    'locale.getlocale', 'os.path.getmtime', 'os.path.getctime', 'os.path.getatime', 'os.stat',
}
PREFIXES = ('random.', 'numpy.random.', 'uuid.', 'secrets.', 'platform.', 'tempfile.')
LISTINGS = {'glob.glob', 'glob.iglob', 'os.listdir', 'os.scandir', 'os.walk', 'glob.glob0', 'glob.glob1'}
EXEMPT_FUNCS = {'__str__', '__repr__', 'asstr', 'str_dict', 'tic', 'toc', 'whoami', 'logident', 'ident', 'strval',
                'CleanUpLogFile', 'CleanUpLogFile1', 'setLogLevel', '_repr_html_', '__format__'}
# file searches depend on directories and on the environment by contract
EXEMPT_MODS = {'findpath', 'tictoc', 'whoami'}
SINKFREE = {'print', 'logident', 'warn', 'pprint', 'debug', 'info', 'warning', 'error', 'critical', 'log', 'ident'}
UNORDERED_OK = {'len', 'sum', 'any', 'all', 'min', 'max', 'sorted', 'bool', 'isinstance', 'type', 'abs'}
GROW = {'append', 'extend', 'insert', 'add', 'update', 'setdefault', 'appendleft', 'write', 'writelines'}


def run(ck):
    A = Analysis(ck)
    A.solve()
    A.report()
    ck.anchor('nondeterminism sources', A.nsources >= 2)
    for f in A.funs:
        ck.saw(f'{f.qual} ({f.mod.rel}:{getattr(f.node, "lineno", 1)})')


class Analysis:
    def __init__(self, ck):
        self.ck, self.pkg = ck, ck.pkg
        self.funs = functions(ck.pkg)
        self.byname = {}
        for f in self.funs:
            self.byname.setdefault(f.name, []).append(f)
        self.local = {id(f.node): {} for f in self.funs}       # name -> {kind: why}
        self.ret = {id(f.node): {} for f in self.funs}
        self.al = {m.name: aliases(m) for m in ck.pkg.live_modules()}
        self.nsources = 0
        self.cls = {}
        for m in ck.pkg.live_modules():
            for c in m.classes.values():
                for n in ast.walk(c.node):
                    if isinstance(n, ast.FunctionDef):
                        self.cls[id(n)] = c
        # objects whose text holds an address
        self.strtaint = set()
        self.own = {id(f.node): list(own(f)) for f in self.funs}

    # ------------------------------------------------------------ fixpoint
    def solve(self):
        for f in self.funs:
            if f.name in ('__str__', '__repr__'):
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Call) and dotted(n.func, self.al[f.mod.name]) in ('id', 'hash'):
                        self.strtaint.add(id(self.cls.get(id(f.node))))
        for _ in range(8):
            before = repr([sorted((k, sorted(v)) for k, v in x.items()) for x in self.local.values()]) + \
                repr([sorted(x) for x in self.ret.values()])
            for f in self.funs:
                self.pass1(f)
            after = repr([sorted((k, sorted(v)) for k, v in x.items()) for x in self.local.values()]) + \
                repr([sorted(x) for x in self.ret.values()])
            if before == after:
                break

    def addlocal(self, f, name, t):
        t = {k: v for k, v in t.items() if k in (VALUE, ORDER, SET)}
        if t:
            self.local[id(f.node)].setdefault(name, {})
            for k, v in t.items():
                self.local[id(f.node)][name].setdefault(k, v)

    def pass1(self, f):
        for n in self.own[id(f.node)]:
            if isinstance(n, ast.Assign):
                t = self.taint(f, n.value)
                for tg in n.targets:
                    self.store(f, tg, t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and n.value is not None:
                self.store(f, n.target, self.taint(f, n.value))
            elif isinstance(n, ast.NamedExpr):
                self.store(f, n.target, self.taint(f, n.value))
            elif isinstance(n, ast.For):
                t = self.iterated(f, n.iter)
                if t:
                    self.store(f, n.target, {VALUE: t[VALUE]} if VALUE in t else {})
                    if ORDER in t:
                        self.loop(f, n, t[ORDER])
            elif isinstance(n, ast.Return) and n.value is not None:
                for k, v in self.taint(f, n.value).items():
                    self.ret[id(f.node)].setdefault(k, v)
            elif isinstance(n, (ast.Yield, ast.YieldFrom)) and n.value is not None:
                for k, v in self.taint(f, n.value).items():
                    self.ret[id(f.node)].setdefault(k, v)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW and \
                    isinstance(n.func.value, ast.Name):
                t = {}
                for a in n.args:
                    t.update(self.taint(f, a))
                if n.func.attr in ('extend', 'update') and SET in t and SET not in \
                        self.local[id(f.node)].get(n.func.value.id, {}):
                    t[ORDER] = t[SET]
                t.pop(SET, None)
                self.addlocal(f, n.func.value.id, t)

    def store(self, f, tg, t):
        if isinstance(tg, ast.Name):
            self.addlocal(f, tg.id, t)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            for e in tg.elts:
                self.store(f, e, t)
        elif isinstance(tg, ast.Starred):
            self.store(f, tg.value, t)
        elif isinstance(tg, ast.Subscript) and isinstance(tg.value, ast.Name):
            self.addlocal(f, tg.value.id, {k: v for k, v in t.items() if k != SET})

    def loop(self, f, n, why):
        """statements of a loop over an unordered collection whose effect
        depends on the order"""
        tn = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        dep = set(tn)
        for _ in range(3):
            for s in n.body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Assign) and any(
                            isinstance(y, ast.Name) and y.id in dep for y in ast.walk(x.value)):
                        for tg in x.targets:
                            dep |= {y.id for y in ast.walk(tg) if isinstance(y, ast.Name)
                                    and isinstance(y.ctx, ast.Store)}
        for s in n.body:
            for x in ast.walk(s):
                def uses(e):
                    return any(isinstance(y, ast.Name) and y.id in dep for y in ast.walk(e))
                if isinstance(x, ast.AugAssign) and uses(x.value):
                    self.store(f, x.target, {ORDER: why})
                elif isinstance(x, ast.Assign) and uses(x.value):
                    for tg in x.targets:
                        if isinstance(tg, ast.Subscript):
                            self.store(f, tg, {ORDER: why})
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in GROW - {'add'} \
                        and isinstance(x.func.value, ast.Name) and any(uses(a) for a in x.args):
                    self.addlocal(f, x.func.value.id, {ORDER: why})
                elif isinstance(x, (ast.Break,)):
                    # which element is left in the target depends on the order
                    for nm in dep:
                        self.addlocal(f, nm, {ORDER: why})
                elif isinstance(x, ast.Return) and x.value is not None and uses(x.value):
                    self.ret[id(f.node)].setdefault(ORDER, why)
                elif isinstance(x, (ast.Yield,)) and x.value is not None and uses(x.value):
                    self.ret[id(f.node)].setdefault(ORDER, why)

    # ------------------------------------------------------------ expressions
    def src(self, f, n, what):
        return f'{what} at {f.mod.rel}:{n.lineno}'

    def iterated(self, f, e):
        t = dict(self.taint(f, e))
        if SET in t:
            t[ORDER] = t.pop(SET)
        return t

    def taint(self, f, e, depth=0):
        if e is None or depth > 40:
            return {}
        al = self.al[f.mod.name]
        T = lambda x: self.taint(f, x, depth + 1)
        if isinstance(e, (ast.Constant, ast.Lambda)):
            return {}
        if isinstance(e, ast.Name):
            t = dict(self.local[id(f.node)].get(e.id, {}))
            g = f
            while not t and g is not None:
                g = self.outer(g)
                if g is not None and e.id not in f.params:
                    t = dict(self.local[id(g.node)].get(e.id, {}))
            if not t and e.id not in f.params:
                mm = next((g for g in self.funs if g.node is f.mod.tree), None)
                if mm is not None and mm is not f:
                    t = dict(self.local[id(mm.node)].get(e.id, {}))
            return t
        if isinstance(e, ast.Attribute):
            d = dotted(e, al)
            if d in SOURCES and not d.startswith('numpy.'):
                self.nsources += 1
                return {VALUE: self.src(f, e, d)}
            return T(e.value)
        if isinstance(e, (ast.Set, ast.SetComp)):
            elts = e.elts if isinstance(e, ast.Set) else [e.elt]
            t = self.union(f, elts, depth)
            if not (isinstance(e, ast.Set) and all(isinstance(x, ast.Constant) and isinstance(x.value, (int, float))
                                                   for x in e.elts)):
                t[SET] = self.src(f, e, 'a set')
            t.pop(ORDER, None)
            return t
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
            t = {}
            for g in e.generators:
                it = self.iterated(f, g.iter)
                t.update(it)
            parts = [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
            for p in parts:
                t.update({k: v for k, v in T(p).items() if k != SET})
            return t
        if isinstance(e, ast.Compare):
            t = {}
            for x in [e.left] + e.comparators:
                t.update(T(x))
            if any(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in e.ops):
                t = {k: v for k, v in t.items() if k == VALUE}
            t.pop(SET, None)
            return t
        if isinstance(e, ast.JoinedStr):
            if dated(e):
                return {}
            t = {}
            for v in e.values:
                if isinstance(v, ast.FormattedValue):
                    t.update(self.text(f, v.value, depth))
            return t
        if isinstance(e, ast.BinOp):
            if dated(e):
                return {}
            t = T(e.left)
            if isinstance(e.op, ast.Mod) and isinstance(e.left, (ast.Constant, ast.JoinedStr)):
                t = dict(t)
                for x in (e.right.elts if isinstance(e.right, ast.Tuple) else [e.right]):
                    t.update(self.text(f, x, depth))
                return t
            t = dict(t)
            t.update(T(e.right))
            return t
        if isinstance(e, ast.Starred):
            return self.iterated(f, e.value)
        if isinstance(e, ast.Call):
            return self.call(f, e, depth)
        if isinstance(e, ast.IfExp):
            return self.union(f, [e.test, e.body, e.orelse], depth)
        out = {}
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                out.update(T(x))
            elif isinstance(x, ast.keyword):
                out.update(T(x.value))
        return out

    def union(self, f, es, depth):
        t = {}
        for x in es:
            t.update(self.taint(f, x, depth + 1))
        return t

    def text(self, f, e, depth):
        """taint of the text of a value"""
        t = dict(self.taint(f, e, depth + 1))
        if SET in t:
            t[ORDER] = t.pop(SET)
        if isinstance(e, ast.Name) and e.id == 'self' and self.addressed(f):
            t[VALUE] = self.src(f, e, 'the text of self, which holds its address,')
        return t

    def addressed(self, f):
        c = self.cls.get(id(f.node))
        return c is not None and any(id(k) in self.strtaint for k in c.mro())

    def call(self, f, e, depth):
        al = self.al[f.mod.name]
        d = dotted(e.func, al)
        T = lambda x: self.taint(f, x, depth + 1)
        args = list(e.args) + [k.value for k in e.keywords]
        if d in LISTINGS:
            self.nsources += 1
            return {ORDER: self.src(f, e, d)}
        if d and (d in SOURCES or d.startswith(PREFIXES)) and not (
                isinstance(e.func, ast.Name) and e.func.id in f.params):
            self.nsources += 1
            if d.startswith('numpy.random') and d.endswith(('seed', 'RandomState', 'default_rng')) and e.args:
                return {}
            if d in ('numpy.empty', 'numpy.empty_like', 'numpy.ndarray'):
                return {VALUE: self.src(f, e, 'uninitialised memory')} if self.partly(f, e) else {}
            if d == 'time.strftime' and len(e.args) > 1:
                t = T(e.args[1])
                return t
            return {VALUE: self.src(f, e, d)}
        if isinstance(e.func, ast.Name):
            nm = e.func.id
            if nm in ('print', 'hasattr', 'isinstance', 'type', 'super', 'callable', 'range', 'issubclass'):
                return {}
            if nm in ('set', 'frozenset'):
                t = {k: v for k, v in self.union(f, args, depth).items() if k == VALUE}
                if args:
                    t[SET] = self.src(f, e, 'a set')
                else:
                    t[SET] = self.src(f, e, 'a set')
                return t
            if nm in UNORDERED_OK:
                t = self.union(f, args, depth)
                return {k: v for k, v in t.items() if k == VALUE}
            if nm in ('list', 'tuple', 'enumerate', 'zip', 'iter', 'next', 'map', 'filter', 'dict', 'reversed'):
                t = {}
                for a in args:
                    t.update(self.iterated(f, a))
                return t
            if nm in ('str', 'repr', 'format', 'hex') and args:
                return self.text(f, args[0], depth)
            r = self.pkg.resolve(f.mod, nm)
            if r and r[0] == 'func' and nm not in f.params:
                t = dict(self.ret.get(id(r[1].node), {}))
                t.update(self.union(f, args, depth))
                return t
            inner = [g for g in self.byname.get(nm, []) if g.mod is f.mod and self.outer(g) is not None]
            t = {}
            for g in inner:
                t.update(self.ret[id(g.node)])
            t.update({k: v for k, v in self.union(f, args, depth).items() if k != SET or r is None})
            return t
        if isinstance(e.func, ast.Attribute):
            nm = e.func.attr
            recv = e.func.value
            t = dict(T(recv))
            for a in args:
                t.update(self.iterated(f, a) if nm in ('join', 'fromkeys', 'array', 'asarray', 'extend') else T(a))
            if nm in ('union', 'intersection', 'difference', 'symmetric_difference', 'copy'):
                return t
            if nm == 'pop' and SET in t:
                t[ORDER] = t.pop(SET)
            if nm in ('sort',):
                return {}
            if d and d.split('.')[0] == 'numpy' and nm in ('unique', 'sort', 'sum', 'max', 'min', 'any', 'all'):
                return {k: v for k, v in t.items() if k == VALUE}
            if d is None or d.split('.')[0] not in al.values():
                # a method of the package
                if nm in ('asstr', '__str__', '__repr__') and isinstance(recv, ast.Name) and recv.id == 'self' and \
                        self.addressed(f):
                    t[VALUE] = self.src(f, e, 'the text of self, which holds its address,')
                elif nm not in EXEMPT_FUNCS and isinstance(recv, ast.Name) and recv.id == 'self' or (
                        isinstance(recv, ast.Call) and isinstance(recv.func, ast.Name) and recv.func.id == 'super'):
                    for g in self.byname.get(nm, []):
                        if self.cls.get(id(g.node)) is not None:
                            t.update(self.ret[id(g.node)])
            return t
        return self.union(f, args, depth)

    def outer(self, f):
        if not hasattr(self, '_outer'):
            self._outer = {}
            for h in self.funs:
                best = None
                for g in self.funs:
                    if g.mod is h.mod and g.node is not h.node and isinstance(g.node, ast.FunctionDef) and \
                            isinstance(h.node, ast.FunctionDef) and g.node.lineno < h.node.lineno and \
                            g.node.end_lineno >= h.node.end_lineno:
                        if best is None or g.node.lineno > best.node.lineno:
                            best = g
                self._outer[id(h.node)] = best
        return self._outer[id(f.node)]

    def partly(self, f, call):
        """an uninitialised array is not known to be filled completely: it is
        filled when a slice of everything, a loop or its out= use writes it"""
        names = set()
        for n in self.own[id(f.node)]:
            if isinstance(n, ast.Assign) and n.value is call:
                names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
                names |= {ast.unparse(t) for t in n.targets if isinstance(t, ast.Attribute)}
        if not names:
            return True
        for n in ast.walk(f.node):
            if isinstance(n, (ast.For, ast.While)):
                for x in ast.walk(n):
                    if isinstance(x, ast.Assign):
                        for t in x.targets:
                            if isinstance(t, ast.Subscript) and ast.unparse(t.value) in names:
                                return False
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and ast.unparse(t.value) in names and \
                            ast.unparse(t.slice) in (':', '...', ':, :', '(:, :)'):
                        return False
            if isinstance(n, ast.Call):
                if any(k.arg == 'out' and ast.unparse(k.value) in names for k in n.keywords):
                    return False
                if isinstance(n.func, ast.Attribute) and n.func.attr == 'fill' and ast.unparse(n.func.value) in names:
                    return False
        return True

    # ------------------------------------------------------------ sinks
    def report(self):
        ck = self.ck
        for f in self.funs:
            if f.mod.name in EXEMPT_MODS or f.name in EXEMPT_FUNCS or self.in_exempt(f):
                continue
            nbad = 0

            def bad(n, kind, why, what):
                nonlocal nbad
                nbad += 1
                ck.bad(kind, f'{f.qual}:{what}', f'{f.mod.rel}:{n.lineno}',
                       f'{why} reaches {what} of {f.qual}')
            for n in self.own[id(f.node)]:
                if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None and not self.local_helper(f):
                    for k, v in self.taint(f, n.value).items():
                        if k in (VALUE, ORDER):
                            bad(n, k, v, 'the returned value')
                elif isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    t = self.taint(f, n.value) if n.value is not None else {}
                    for tg in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(tg, ast.Name) and f.node is f.mod.tree:
                            for k, v in t.items():
                                if k in (VALUE, ORDER):
                                    bad(n, k, v, f'the module variable {tg.id}')
                        for x in ast.walk(tg):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) or \
                                    isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and \
                                    isinstance(x.value, ast.Attribute):
                                for k, v in t.items():
                                    if k in (VALUE, ORDER):
                                        bad(n, k, v, ast.unparse(x))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW and \
                        not isinstance(n.func.value, ast.Name):
                    for a in n.args:
                        for k, v in self.taint(f, a).items():
                            if k in (VALUE, ORDER):
                                bad(n, k, v, ast.unparse(n.func.value))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'write':
                    for a in n.args:
                        for k, v in self.taint(f, a).items():
                            if k in (VALUE, ORDER):
                                bad(n, k, v, 'the written file')
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                        n.func.attr in ('addblock', 'connect', 'terminate', 'set', 'setS'):
                    for a in n.args + [k.value for k in n.keywords]:
                        for k, v in self.taint(f, a).items():
                            if k in (VALUE, ORDER):
                                bad(n, k, v, f'an argument of {n.func.attr}')
                elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
                    t = self.taint(f, n.test)
                    for k in (VALUE, ORDER):
                        if k in t and not self.harmless(n):
                            bad(n, k, t[k], 'a branch decision')
                elif isinstance(n, ast.For):
                    t = self.iterated(f, n.iter)
                    if ORDER in t:
                        for s in n.body:
                            for x in ast.walk(s):
                                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and (
                                        x.func.attr in ('addblock', 'connect', 'terminate', 'setS', 'deembed')
                                        or x.func.attr in GROW and isinstance(x.func.value, ast.Attribute)):
                                    bad(x, ORDER, t[ORDER], f'the order of {ast.unparse(x.func)} calls')
                                elif isinstance(x, (ast.Assign, ast.AugAssign)):
                                    for tg in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                                        if isinstance(tg, ast.Subscript) and isinstance(tg.value, ast.Attribute):
                                            bad(x, ORDER, t[ORDER], ast.unparse(tg.value))
            if not nbad:
                ck.ok('value', f.qual, f.mod.rel)

    def local_helper(self, f):
        # private and nested helpers only pass taint on to their callers
        return self.outer(f) is not None

    def in_exempt(self, f):
        g = self.outer(f)
        while g is not None:
            if g.name in EXEMPT_FUNCS:
                return True
            g = self.outer(g)
        return False

    def harmless(self, n):
        """the branch only talks to people"""
        if isinstance(n, ast.IfExp):
            return False
        for s in n.body + n.orelse:
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                fn = s.value.func
                nm = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ''
                if nm in SINKFREE:
                    continue
            return False
        return True


def dated(e):
    """string building of a dated touchstone comment: the first literal piece
    starts with '!' and names the date"""
    x = e
    while True:
        if isinstance(x, ast.BinOp):
            x = x.left
        elif isinstance(x, ast.JoinedStr) and x.values:
            x = x.values[0]
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'format':
            x = x.func.value
        else:
            break
    if not (isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.lstrip().startswith('!')
            and 'date' in x.value.lower()):
        return False
    # only one line, and no other sources than the clock
    for n in ast.walk(e):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('id', 'hash'):
            return False
    return True
