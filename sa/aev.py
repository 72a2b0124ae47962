"""Abstract evaluation of functions of the package over value numbers.

Scalars are value numbers of sa/field.py (one number stands for a whole class
of equal expressions), arrays have a fixed shape and value numbers as entries,
containers, strings and indices are kept as they are.  Branches whose condition
is not determined split the analysis (trace partitioning); what is outside the
modelled language gives an unknown value, and an obligation that meets an
unknown value stays undecided.  Nothing of the package is imported or run.
"""
import ast
from fractions import Fraction as _Fraction
import itertools
import re as _re
from fractions import Fraction

from .field import Field, Num, Inf, Nan, NAN, PINF, NINF, Retry, txt, P
from .alib import Lib


class Unknown(Exception):
    """outside the modelled language"""


class Infeasible(Exception):
    """contradictory facts: this partition is empty"""


class AbsRaise(Exception):
    def __init__(self, name, args=(), where='', obj=None):
        self.name, self.args_, self.where, self.obj = name, args, where, obj
        self.stated = None      # the raise statement: (function, line)
        super().__init__(f'{name}{args} at {where}')


class Opaque:
    def __init__(self, d='?'):
        self.d = d

    def __repr__(self):
        return f'<unknown {self.d}>'

    def __hash__(self):
        return id(self)


class Obj:
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}

    def __repr__(self):
        return f'<{self.cls.name} object>'


class Ref:
    """function, class, external or bound method"""
    def __init__(self, kind, x, recv=None, env=None, cls=None):
        self.kind, self.x, self.recv, self.env, self.cls = kind, x, recv, env, cls

    def __repr__(self):
        return f'<{self.kind} {self.x}>'

    def __eq__(self, o):
        return isinstance(o, Ref) and (self.kind, self.x) == (o.kind, o.x) and self.recv is o.recv

    def __hash__(self):
        return hash((self.kind, str(self.x)))


class Frame:
    def __init__(self, func, parent, mod, cls=None):
        self.func, self.parent, self.mod, self.cls = func, parent, mod, cls
        self.vars, self.globals, self.nonlocals, self.yields = {}, set(), set(), None
        self.selfv = None
        self.caller, self.names = None, ([], None, None)


class Arr:
    """array of fixed shape; views share the buffer"""
    __slots__ = ('buf', 'off', 'shape', 'dt', 'ro')

    def __init__(self, buf, shape, off=None, dt=None):
        self.buf, self.shape, self.dt = buf, tuple(shape), dt
        self.off = list(range(len(buf))) if off is None else off

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def flat(self):
        return [self.buf[i] for i in self.off]

    def copy(self):
        return Arr(self.flat, self.shape, dt=self.dt)

    def __repr__(self):
        return f'array{self.shape}'

    def rows(self):
        n = self.shape[0]
        k = len(self.off) // n if n else 0
        for i in range(n):
            if self.ndim == 1:
                yield self.buf[self.off[i]]
            else:
                yield Arr(self.buf, self.shape[1:], self.off[i * k:(i + 1) * k], self.dt)

    def tolist(self):
        if self.ndim == 0:
            return self.flat[0]
        return [r.tolist() if isinstance(r, Arr) else r for r in self.rows()]


def prod(s):
    r = 1
    for x in s:
        r *= x
    return r


EXC = {
    'Exception': 'BaseException', 'ValueError': 'Exception', 'TypeError': 'Exception', 'KeyError': 'LookupError',
    'IndexError': 'LookupError', 'LookupError': 'Exception', 'AttributeError': 'Exception', 'NameError': 'Exception',
    'UnboundLocalError': 'NameError', 'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception',
    'OverflowError': 'ArithmeticError', 'FloatingPointError': 'ArithmeticError', 'RuntimeError': 'Exception',
    'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError', 'StopIteration': 'Exception',
    'AssertionError': 'Exception', 'OSError': 'Exception', 'IOError': 'OSError', 'FileNotFoundError': 'OSError',
    'LinAlgError': 'ValueError', 'SystemError': 'Exception', 'SyntaxError': 'Exception', 'UnicodeError': 'ValueError',
    'Warning': 'Exception', 'UserWarning': 'Warning', 'SystemExit': 'BaseException', 'BaseException': None,
    'ImportError': 'Exception', 'EOFError': 'Exception', 'MemoryError': 'Exception',
}


def exc_is(name, base):
    while name:
        if name == base:
            return True
        name = EXC.get(name, 'Exception' if name != 'BaseException' else None)
    return False


BREAK, CONTINUE = object(), object()


class Ret:
    def __init__(self, v):
        self.v = v


class Partition:
    """explores the partitions of one obligation"""
    def __init__(self, pkg, limit=200, steps=400000, wall=60):
        self.pkg, self.limit, self.steps, self.wall = pkg, limit, steps, wall

    def run(self, fn):
        """fn(ev) for every partition; yields (ev, outcome) where outcome is
        ('ok', value) | ('raise', AbsRaise) | ('unknown', text)"""
        import time
        work, seen, n, end = [({}, ())], set(), 0, time.time() + self.wall
        while work:
            subst, dec = work.pop()
            key = (tuple(sorted(subst.items())), dec)
            if key in seen:
                continue
            seen.add(key)
            n += 1
            if n > self.limit:
                yield None, ('unknown', 'too many partitions')
                return
            for seed in range(1, 400):
                if time.time() > end:
                    yield None, ('unknown', f'not decided within {self.wall} s')
                    return
                ev = Ev(self.pkg, Field(seed), subst, list(dec), self.steps)
                try:
                    out = ('ok', fn(ev))
                except Retry:
                    continue
                except AbsRaise as e:
                    out = ('raise', e)
                except Infeasible:
                    out = None
                except (Unknown, RecursionError) as e:
                    out = ('unknown', str(e) or type(e).__name__)
                break
            else:
                out = ('unknown', 'no suitable value numbers')
                yield None, out
                continue
            for k in range(len(dec), len(ev.taken)):
                for alt in ev.alts[k]:
                    work.append((subst, tuple(ev.taken[:k]) + (alt,)))
            for s in ev.newsubst:
                if s[0] not in subst:
                    work.append(({**subst, s[0]: s[1]}, ()))
            if out is not None:
                yield ev, out


class Ev(Lib):
    def __init__(self, pkg, field, subst=None, decisions=(), steps=400000):
        self.pkg, self.F = pkg, field
        self.subst = subst or {}
        self.dec, self.taken, self.alts = list(decisions), [], []
        self.facts, self.newsubst, self.trail, self.order = {}, [], [], {}
        self.steps = steps
        self.depth = 0
        self.taint = False
        self.printed = []
        self.files = None
        self.modglobals = {}
        self.fr = None
        self.node = None
        self.total = False
        self.inject = None         # called with (function, receiver) at every call
        self.override = {}         # qualified name -> python callable(ev, args, kws)
        self.ext = {}              # dotted external -> python callable(ev, args, kws)
        self.calls = []
        self.level = None          # diagnostics: None (left out) or the level of the logger

    # ---------------------------------------------------------- diagnostics
    LEVELS = {'CRITICAL': 50, 'FATAL': 50, 'ERROR': 40, 'WARN': 30, 'WARNING': 30, 'INFO': 20, 'DEBUG': 10, 'NOTSET': 0}
    LEVELNAMES = {50: 'CRITICAL', 40: 'ERROR', 30: 'WARNING', 20: 'INFO', 10: 'DEBUG', 0: 'NOTSET'}

    def diagnostics(self, level):
        """from here on the diagnostics of the package are evaluated, with the
        logger at this level; the logger itself is a model"""
        self.level = 'DEBUG'
        self.loglevel = 50
        self.logged = 0
        lev = self.LEVELS

        def name(ev, a, k):
            v = a[0]
            if isinstance(v, Num) and v.c is not None:
                v = int(v.c)
            if isinstance(v, str):
                return lev.get(v, f'Level {v}')
            return self.LEVELNAMES.get(v, f'Level {v}')

        def frames(ev, a, k):
            out, fr = [], a[0].x['__frame__']
            while fr is not None:
                f = self.pyframe(fr)
                out.append((f, 'file', 1, f.x['f_code'].x['co_name'], None, None))
                fr = fr.caller
            return out + [(None, 'file', 1, '<module>', None, None)] * (3 if len(out) < 3 else 1)

        def argvalues(ev, a, k):
            fr = a[0].x['__frame__']
            return (list(fr.names[0]), fr.names[1], fr.names[2], fr.vars)

        def getframe(ev, a, k):
            fr = self.fr
            for _ in range(a[0] if a else 0):
                fr = fr.caller
                if fr is None:
                    return self.pyframe(None)
            return self.pyframe(fr)
        self.ext.update({'logging.getLevelName': name, 'inspect.getouterframes': frames, 'inspect.getargvalues': argvalues,
                         'inspect.currentframe': lambda ev, a, k: self.pyframe(self.fr), 'sys._getframe': getframe,
                         'logging.getLogger': lambda ev, a, k: Ref('ns', {'level': 50})})
        m = self.pkg.modules.get('config') or next((m for n, m in self.pkg.modules.items() if n.split('.')[-1] == 'config'), None)
        f = m.funcs.get('setLogLevel') if m else None
        if f is None:
            self.unk('setLogLevel')
        self.apply(Ref('func', f), [level], {})

    def pyframe(self, fr):
        name = '<module>' if fr is None or fr.func is None else fr.func.name
        return Ref('ns', {'__frame__': fr, 'f_code': Ref('ns', {'co_name': name}), 'f_lineno': 1,
                          'f_locals': fr.vars if fr is not None else {}})

    def logger(self):
        def log(n, lev):
            def write(ev, a, k):
                if lev is None:
                    a = a[1:]
                bad = set(k) - {'stacklevel', 'exc_info', 'extra', 'stack_info'}
                if (bad or not a) and (lev is None or lev >= self.loglevel):
                    raise AbsRaise('TypeError', (f'unexpected keyword {sorted(bad)}',), self.where())
                self.logged += 1
            return Ref('py', write)

        def number(v):
            return self.LEVELS[v] if isinstance(v, str) else int(v.c) if isinstance(v, Num) else v
        d = {n: log(n, v) for n, v in dict(debug=10, info=20, warning=30, warn=30, error=40, critical=50, fatal=50,
                                           exception=40, log=None).items()}
        d.update(setLevel=Ref('py', lambda ev, a, k: setattr(self, 'loglevel', number(a[0]))),
                 getEffectiveLevel=Ref('py', lambda ev, a, k: self.loglevel),
                 isEnabledFor=Ref('py', lambda ev, a, k: number(a[0]) >= self.loglevel),
                 level=self.loglevel, name='pyRFtk2', handlers=[])
        return Ref('ns', d)

    # ------------------------------------------------------------- symbols
    def sym(self, name, kind='real', pos=None):
        if name in self.subst:
            s = self.subst[name]
            if s[0] == 'c':
                v = self.F.num(Fraction(s[1]))
                return v
            if s[0] == 'inf':
                return PINF if s[1] > 0 else NINF
            return self.F.syms.get(s[1]) or self.F.sym(s[1], kind, pos)
        return self.F.sym(name, kind, pos)

    def arr(self, name, shape, kind='complex', pos=None):
        return Arr([self.sym(f'{name}[{",".join(map(str, i))}]', kind, pos)
                    for i in itertools.product(*[range(n) for n in shape])], shape)

    # ----------------------------------------------------------- decisions
    def choose(self, key, opts, why=''):
        if key[0] in ('opq', 'cmp', 'in', 'is'):
            self.taint = True       # decided on an unknown value
        if key in self.facts:
            return self.facts[key]
        k = len(self.taken)
        v = self.dec[k] if k < len(self.dec) else opts[0]
        self.taken.append(v)
        self.alts.append([o for o in opts if o != v] if k >= len(self.dec) else [])
        self.facts[key] = v
        self.trail.append(f'{why or key}: {v}')
        return v

    def where(self, node=None):
        node = node or self.node
        m = self.fr.mod if self.fr else None
        return f'{m.rel if m else "?"}:{getattr(node, "lineno", 0)}'

    def unk(self, what):
        raise Unknown(f'{what} at {self.where()}')

    # ---------------------------------------------------------- truth, cmp
    def truth(self, v):
        if isinstance(v, bool) or v is None or isinstance(v, (str, list, tuple, dict, set, int, range)):
            return bool(v)
        if isinstance(v, (Num, Inf, Nan)):
            return self.cmp(ast.NotEq, v, 0)
        if isinstance(v, Arr):
            if len(v.off) == 1:
                return self.truth(v.flat[0])
            if not v.off:
                return False
            raise AbsRaise('ValueError', ('truth value of an array',), self.where())
        if isinstance(v, Obj):
            m = v.cls.find('__bool__')
            if m:
                return self.truth(self.callfunc(m, v, [], {}, v.cls))
            m = v.cls.find('__len__')
            if m:
                return self.truth(self.callfunc(m, v, [], {}, v.cls))
            return True
        if isinstance(v, Opaque):
            return self.choose(('opq', id(v), v.d, self.where()), [True, False], f'{v} at {self.where()}')
        return True

    def isnum(self, v):
        return isinstance(v, (int, Num, Inf, Nan, Fraction, float, complex)) and not isinstance(v, bool) or \
            isinstance(v, bool)

    def cmp(self, op, a, b):
        """comparison of two scalars or containers -> bool"""
        if op in (ast.Is, ast.IsNot):
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                r = a is b
            elif isinstance(a, Ref) and isinstance(b, Ref):
                r = a == b
            elif isinstance(a, Opaque) or isinstance(b, Opaque):
                if a is b:
                    r = True
                else:
                    r = self.choose(('is', id(a), id(b), self.where()), [False, True])
            elif isinstance(a, (Num, Inf, Nan)) or isinstance(b, (Num, Inf, Nan)):
                r = a is b or (isinstance(a, Nan) and isinstance(b, Nan))
            else:
                r = a is b
            return r if op is ast.Is else not r
        if op in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return r if op is ast.In else not r
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is b and op in (ast.Eq, ast.NotEq):
                return op is ast.Eq
            return self.choose(('cmp', op.__name__, id(a), id(b), self.where()), [True, False],
                               f'{a} {op.__name__} {b}')
        if isinstance(a, Arr) or isinstance(b, Arr):
            self.unk('array comparison used as scalar')
        if self.isnum(a) and self.isnum(b):
            return self.ncmp(op, a, b)
        if op in (ast.Eq, ast.NotEq):
            r = self.eq(a, b)
            return r if op is ast.Eq else not r
        if isinstance(a, str) and isinstance(b, str) or isinstance(a, set) and isinstance(b, set):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op]
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            for x, y in zip(a, b):
                if not self.eq(x, y):
                    return self.cmp(op, x, y)
            return {ast.Lt: len(a) < len(b), ast.LtE: len(a) <= len(b), ast.Gt: len(a) > len(b),
                    ast.GtE: len(a) >= len(b)}[op]
        raise AbsRaise('TypeError', ('comparison',), self.where())

    def eq(self, a, b):
        if a is b:
            return not isinstance(a, Nan)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.cmp(ast.Eq, a, b)
        if self.isnum(a) and self.isnum(b):
            return self.ncmp(ast.Eq, a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return type(a) is type(b) and len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return set(a) == set(b) and all(self.eq(a[k], b[k]) for k in a)
        if isinstance(a, Arr) or isinstance(b, Arr):
            r = self.binop_arr(lambda x, y: self.eq(x, y), a, b)
            return r
        if isinstance(a, Obj) and a.cls.find('__eq__'):
            return self.truth(self.callfunc(a.cls.find('__eq__'), a, [b], {}, a.cls))
        try:
            return bool(a == b)
        except Exception:
            return False

    def ncmp(self, op, a, b):
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            return {ast.Eq: a == b, ast.NotEq: a != b, ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b,
                    ast.GtE: a >= b}[op]
        a, b = self.F.num(a), self.F.num(b)
        if isinstance(a, Nan) or isinstance(b, Nan):
            return op is ast.NotEq
        if isinstance(a, Inf) or isinstance(b, Inf):
            if op in (ast.Eq, ast.NotEq):
                return (a == b) == (op is ast.Eq)
            va = a.s if isinstance(a, Inf) else 0
            vb = b.s if isinstance(b, Inf) else 0
            return {ast.Lt: va < vb, ast.LtE: va <= vb, ast.Gt: va > vb, ast.GtE: va >= vb}[op]
        if a.c is not None and b.c is not None:
            return {ast.Eq: a.c == b.c, ast.NotEq: a.c != b.c, ast.Lt: a.c < b.c, ast.LtE: a.c <= b.c,
                    ast.Gt: a.c > b.c, ast.GtE: a.c >= b.c}[op]
        if a.fp == b.fp:
            return op in (ast.Eq, ast.LtE, ast.GtE)
        d = self.F.sub(a, b)
        if op in (ast.Eq, ast.NotEq):
            e = self.choose_eq(a, b, d)
            return e == (op is ast.Eq)
        if not d.real:
            raise AbsRaise('TypeError', ('order of complex numbers',), self.where())
        s = self.sign(a, b, d)
        return {ast.Lt: s < 0, ast.LtE: s <= 0, ast.Gt: s > 0, ast.GtE: s >= 0}[op]

    def sign(self, a, b, d):
        """sign of the real a-b, never 0 for a generic difference"""
        if d.pos == '+':
            return 1
        if d.pos == '-':
            return -1
        if b.pos == '0+' and (a.c is not None and a.c <= 0 or a.pos == '-'):
            return -1
        if a.pos == '0+' and (b.c is not None and b.c <= 0 or b.pos == '-'):
            return 1
        if b.c == 0 and a.ab and a.ab[0].real and a.ab[1].real:
            a, b = a.ab             # sign of a difference
        if self.total:              # one order of the generic values, not all of them
            return 1 if a.fp > b.fp else -1
        # canonical key up to sign
        k = min(d.re, -d.re % P)
        flip = 1 if k == d.re else -1
        if ('sign', k) not in self.facts:
            self.noteq(a, b, d)
        opts = ['+', '-'] if d.pos != '0+' else (['+'] if flip > 0 else ['-'])
        # orders already decided in this partition are transitive
        if ('sign', k) not in self.facts:
            if self.above(a.fp, b.fp):
                return 1
            if self.above(b.fp, a.fp):
                return -1
        v = self.choose(('sign', k), opts, f'sign of {txt(a)} - {txt(b)} (line {self.where()})')
        r = flip if v == '+' else -flip
        self.order.setdefault(b.fp if r > 0 else a.fp, set()).add(a.fp if r > 0 else b.fp)
        return r

    def above(self, a, b):
        """a > b follows from the decided orders"""
        todo, seen = [b], set()
        while todo:
            x = todo.pop()
            if x == a:
                return True
            if x not in seen:
                seen.add(x)
                todo += self.order.get(x, ())
        return False

    def noteq(self, a, b, d):
        """register the partition in which the generic a and b coincide"""
        if d.pos in ('+', '-'):
            return
        for x, y in ((a, b), (b, a)):
            if x.gen and x.gen != 'pi':
                if y.c is not None and not (x.pos == '+' and y.c <= 0 or x.pos == '-' and y.c >= 0
                                            or x.pos == '0+' and y.c < 0):
                    self.newsubst.append((x.gen, ('c', str(y.c))))
                    return
                if y.gen and y.gen != 'pi' and y.real == x.real:
                    p, q = sorted((x.gen, y.gen))
                    self.newsubst.append((q, ('gen', p)))
                    return

    def choose_eq(self, a, b, d):
        self.noteq(a, b, d)
        return False

    def contains(self, c, x):
        if isinstance(c, str):
            if not isinstance(x, str):
                if isinstance(x, Opaque):
                    return self.choose(('in', id(x), c, self.where()), [False, True])
                raise AbsRaise('TypeError', ('in string',), self.where())
            return x in c
        if isinstance(c, dict):
            return self.hashable(x) in c
        if isinstance(c, (list, tuple, set, range)):
            return any(self.eq(x, y) if not isinstance(x, Arr) and not isinstance(y, Arr) else False for y in c)
        if isinstance(c, Arr):
            return any(self.eq(x, y) for y in c.flat)
        if isinstance(c, Opaque):
            return self.choose(('in', id(x), id(c), self.where()), [False, True])
        if isinstance(c, Obj) and c.cls.find('__contains__'):
            return self.truth(self.callfunc(c.cls.find('__contains__'), c, [x], {}, c.cls))
        if isinstance(c, Obj):
            return any(self.eq(x, y) for y in self.iterate(c))
        raise AbsRaise('TypeError', ('not a container',), self.where())

    def hashable(self, k):
        if isinstance(k, (list, dict, set, Arr)):
            raise AbsRaise('TypeError', ('unhashable',), self.where())
        return k

    # ------------------------------------------------------------- iterate
    def iterate(self, v):
        if isinstance(v, (list, tuple, range, str)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, set):
            return sorted(v, key=repr)
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise AbsRaise('TypeError', ('iteration over a 0-d array',), self.where())
            return list(v.rows())
        if isinstance(v, Obj):
            m = v.cls.find('__iter__')
            if m:
                return self.iterate(self.callfunc(m, v, [], {}, v.cls))
            m = v.cls.find('__getitem__')
            if m:
                out = []
                try:
                    for k in range(1000):
                        out.append(self.callfunc(m, v, [k], {}, v.cls))
                except AbsRaise as e:
                    if e.name != 'IndexError':
                        raise
                return out
        if isinstance(v, Ref) and v.kind == 'ns' and '__iter__' in v.x:
            return self.apply(v.x['__iter__'], [], {})
        if isinstance(v, Opaque):
            self.unk(f'iteration over {v}')
        raise AbsRaise('TypeError', (f'{type(v).__name__} object is not iterable',), self.where())

    # ---------------------------------------------------------- arithmetic
    def arith(self, op, a, b):
        F = self.F
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('value')
        if isinstance(a, Arr) or isinstance(b, Arr):
            if op is ast.MatMult:
                return self.matmul(self.asarr(a), self.asarr(b))
            if isinstance(a, Obj) or isinstance(b, Obj) or isinstance(a, dict) or isinstance(b, dict) or \
                    a is None or b is None or isinstance(a, str) or isinstance(b, str):
                raise AbsRaise('TypeError', ('array operand',), self.where())
            return self.binop_arr(lambda x, y: self.scalar(op, x, y, True), a, b)
        if op is ast.MatMult:
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
                raise AbsRaise('TypeError', ('matmul of lists',), self.where())
            return self.matmul(self.asarr(a), self.asarr(b))
        if op is ast.Add:
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, list) and isinstance(b, list) or isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if op is ast.Mult:
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (list, tuple, str)) and isinstance(y, int):
                    return x * y
        if op is ast.Mod and isinstance(a, str):
            return self.percent(a, b)
        if isinstance(a, set) and isinstance(b, set):
            return {ast.Sub: a - b, ast.BitOr: a | b, ast.BitAnd: a & b, ast.BitXor: a ^ b}[op]
        if isinstance(a, dict) and isinstance(b, dict) and op is ast.BitOr:
            return {**a, **b}
        if isinstance(a, Obj):
            nm = {ast.Add: '__add__', ast.Mult: '__mul__', ast.Sub: '__sub__', ast.Div: '__truediv__'}.get(op)
            m = nm and a.cls.find(nm)
            if m:
                return self.callfunc(m, a, [b], {}, a.cls)
        if self.isnum(a) and self.isnum(b):
            return self.scalar(op, a, b)
        raise AbsRaise('TypeError', (f'unsupported operand {type(a).__name__} {op.__name__} {type(b).__name__}',),
                       self.where())

    def scalar(self, op, a, b, arr=False):
        F = self.F
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('value')
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            if isinstance(a, bool) and isinstance(b, bool) and op in (ast.BitOr, ast.BitAnd, ast.BitXor):
                return {ast.BitOr: a | b, ast.BitAnd: a & b, ast.BitXor: a ^ b}[op]
            a, b = int(a), int(b)
            if op in (ast.Div,):
                if b == 0:
                    return self.divzero(a, arr)
                return F.num(Fraction(a, b))
            if op in (ast.FloorDiv, ast.Mod) and b == 0:
                raise AbsRaise('ZeroDivisionError', (), self.where())
            if op is ast.Pow and b < 0:
                return F.num(Fraction(a) ** b)
            if op is ast.Pow and b > 200:
                return F.num(Fraction(a)) if a in (0, 1) else Opaque('power')
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b,
                    ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b,
                    ast.BitOr: lambda: a | b, ast.BitAnd: lambda: a & b, ast.BitXor: lambda: a ^ b,
                    ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b}[op]()
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            raise AbsRaise('TypeError', ('operand',), self.where())
        if not self.isnum(a) or not self.isnum(b):
            self.unk('operands')
        a, b = F.num(a), F.num(b)
        if op is ast.Add:
            return F.add(a, b)
        if op is ast.Sub:
            return F.sub(a, b)
        if op is ast.Mult:
            return F.mul(a, b)
        if op is ast.Div:
            try:
                return F.div(a, b)
            except ZeroDivisionError:
                return self.divzero(a, arr)
        if op is ast.Pow:
            try:
                return F.pow(a, b)
            except ZeroDivisionError:
                return self.divzero(F.num(1), arr)
        if op in (ast.FloorDiv, ast.Mod):
            if isinstance(a, Num) and isinstance(b, Num) and a.c is not None and b.c is not None and b.c != 0:
                q = a.c // b.c
                return F.num(Fraction(q)) if op is ast.FloorDiv else F.num(a.c - q * b.c)
            return F.fun(op.__name__, a, b, real=True)
        raise AbsRaise('TypeError', ('operator',), self.where())

    def divzero(self, a, arr):
        """numpy scalars and arrays give inf, Python numbers raise: both are
        followed only where the operand types are known"""
        if arr:
            a = self.F.num(a)
            if isinstance(a, Nan) or isinstance(a, Num) and a.fp == (0, 0):
                return NAN
            return NINF if isinstance(a, Num) and a.pos == '-' else PINF
        raise AbsRaise('ZeroDivisionError', (), self.where())

    def percent(self, f, x):
        xs = x if isinstance(x, tuple) else (x,)
        specs = _re.findall(r'%(?:\(\w+\))?[-+ #0]*[\d*]*(?:\.[\d*]+)?[hlL]*([diouxXeEfFgGcrsa%])', f)
        n = sum(1 for s in specs if s != '%')
        if isinstance(x, dict) and '%(' in f:
            return f
        if n != len(xs) and '*' not in f:
            raise AbsRaise('TypeError', ('format arguments',), self.where())
        if all(isinstance(v, (str, int, bool)) or v is None for v in xs):
            try:
                return f % (tuple(xs))
            except (TypeError, ValueError) as e:
                raise AbsRaise(type(e).__name__, (str(e),), self.where())
        it = iter(xs)

        def rep(m):
            if m.group(0).endswith('%') and len(m.group(0)) == 2:
                return '%'
            v = next(it)
            if isinstance(v, (str, int)):
                try:
                    return m.group(0) % v
                except (TypeError, ValueError) as e:
                    raise AbsRaise(type(e).__name__, (str(e),), self.where())
            if m.group(0)[-1] not in 'rsac' and (v is None or isinstance(v, (list, tuple, dict, set, Obj)) or
                                                 isinstance(v, Arr) and prod(v.shape) != 1):
                raise AbsRaise('TypeError', ('a number is required',), self.where())
            return self.spec(v, m.group(0)[1:])
        return _re.sub(r'%[-+ #0]*\d*(?:\.\d+)?[diouxXeEfFgGcrsa%]', rep, f)

    def spec(self, v, spec):
        """a number formatted: constants as text when that loses nothing"""
        m = _re.fullmatch(r'[-+ #0<>^]*(\d*)(?:\.(\d+))?([a-zA-Z]?)', spec)
        if isinstance(v, Num) and m:
            if v.c is not None and m.group(3) in ('f', 'F', 'e', 'E', 'g', 'G', 'd', 's', ''):
                try:
                    x = int(v.c) if m.group(3) == 'd' else float(v.c)
                    t = ('%' + spec) % x if spec and m.group(3) and '<' not in spec and '>' not in spec and \
                        '^' not in spec else format(x, spec)
                    if m.group(3) == 'd' or _Fraction(t) == v.c:
                        return t
                except (ValueError, TypeError):
                    pass
            w, p = m.group(1), m.group(2)
            if m.group(3) in ('f', 'e', 'g') and w and int(w) >= int(p or 6) + 4:
                return ' ' + self.text(v)
        return self.text(v)

    def text(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, (int, bool)) or v is None:
            return str(v)
        if isinstance(v, Num):
            if v.c is not None:
                return str(int(v.c)) + '.0' if v.c.denominator == 1 else str(float(v.c))
            return f'‹{v.re:x}.{v.im:x}›'
        if isinstance(v, (list, tuple)):
            return '[' + ', '.join(self.text(x) if not isinstance(x, Obj) else '‹Obj›' for x in v) + ']'
        if isinstance(v, AbsRaise) and v.obj is None and len(v.args_) == 1:
            return self.text(v.args_[0])
        if isinstance(v, Obj):
            for m in ('__str__', '__repr__'):
                f = v.cls.find(m)
                if f:
                    t = self.callfunc(f, v, [], {}, v.cls)
                    if isinstance(t, (Opaque, str)):
                        return t if isinstance(t, str) else '‹Obj›'
                    raise AbsRaise('TypeError', (f'{m} returned non-string',), self.where())
        return f'‹{type(v).__name__}›'

    # -------------------------------------------------------------- arrays
    def asarr(self, v, copy=False):
        if isinstance(v, Arr):
            return v.copy() if copy else v
        if self.isnum(v) or isinstance(v, str) or v is None:
            return Arr([v], ())
        if isinstance(v, (list, tuple, range)):
            parts = [self.asarr(x) for x in v]
            if not parts:
                return Arr([], (0,))
            sh = parts[0].shape
            if any(p.shape != sh for p in parts):
                raise AbsRaise('ValueError', ('inhomogeneous shape',), self.where())
            return Arr([x for p in parts for x in p.flat], (len(parts),) + sh)
        if isinstance(v, Opaque):
            self.unk(f'array of {v}')
        if isinstance(v, Obj):
            if v.cls.find('__len__') and v.cls.find('__getitem__'):
                return self.asarr([x for x in self.iterate(v)])
            return Arr([v], ())
        if isinstance(v, (dict, set, Ref)):
            return Arr([v], ())
        self.unk(f'array of {type(v).__name__}')

    def unwrap(self, a):
        return a.flat[0] if isinstance(a, Arr) and a.ndim == 0 else a

    def bshape(self, s, t):
        n = max(len(s), len(t))
        s, t = (1,) * (n - len(s)) + tuple(s), (1,) * (n - len(t)) + tuple(t)
        out = []
        for x, y in zip(s, t):
            if x != y and 1 not in (x, y):
                raise AbsRaise('ValueError', (f'operands could not be broadcast {s} {t}',), self.where())
            out.append(y if x == 1 else x)
        return tuple(out)

    def spread(self, a, shape):
        if a.shape == tuple(shape):
            return a.flat
        sh = (1,) * (len(shape) - a.ndim) + a.shape
        strides, k = [], 1
        for n in reversed(sh):
            strides.append(0 if n == 1 else k)
            k *= n
        strides.reverse()
        fl = a.flat
        return [fl[sum(i * s for i, s in zip(ix, strides))] for ix in itertools.product(*[range(n) for n in shape])]

    def binop_arr(self, f, a, b):
        a, b = self.asarr(a), self.asarr(b)
        sh = self.bshape(a.shape, b.shape)
        r = Arr([f(x, y) for x, y in zip(self.spread(a, sh), self.spread(b, sh))], sh)
        return self.unwrap(r)

    def maparr(self, f, a):
        if isinstance(a, (list, tuple)):
            a = self.asarr(a)
        if isinstance(a, Arr):
            return self.unwrap(Arr([f(x) for x in a.flat], a.shape))
        return f(a)

    def add(self, x, y):
        return self.scalar(ast.Add, x, y, True)

    def mul(self, x, y):
        return self.scalar(ast.Mult, x, y, True)

    def matmul(self, a, b):
        if a.ndim == 0 or b.ndim == 0:
            raise AbsRaise('ValueError', ('matmul of scalars',), self.where())
        if a.ndim > 2 or b.ndim > 2:
            sh = self.bshape(a.shape[:-2] if a.ndim > 2 else (), b.shape[:-2] if b.ndim > 2 else ())
            k = prod(sh)
            def parts(x):
                if x.ndim <= 2:
                    return [x] * k
                n = x.shape[-2] * x.shape[-1]
                fl = x.flat
                ps = [Arr(fl[i * n:(i + 1) * n], x.shape[-2:]) for i in range(len(fl) // n)]
                return ps if len(ps) == k else ps * k
            rs = [self.matmul(x, y) for x, y in zip(parts(a), parts(b))]
            return Arr([v for r in rs for v in r.flat], sh + rs[0].shape)
        A = a if a.ndim == 2 else Arr(a.flat, (1,) + a.shape)
        B = b if b.ndim == 2 else Arr(b.flat, b.shape + (1,))
        if A.shape[1] != B.shape[0]:
            raise AbsRaise('ValueError', (f'matmul: mismatch {a.shape} {b.shape}',), self.where())
        n, m, p = A.shape[0], A.shape[1], B.shape[1]
        fa, fb = A.flat, B.flat
        out = []
        for i in range(n):
            for j in range(p):
                s = self.F.num(0)
                for k in range(m):
                    s = self.add(s, self.mul(fa[i * m + k], fb[k * p + j]))
                out.append(s)
        sh = ((n,) if a.ndim == 2 else ()) + ((p,) if b.ndim == 2 else ())
        return self.unwrap(Arr(out, sh))

    def inverse(self, a):
        a = self.asarr(a)
        if a.ndim == 3:
            return self.stack([self.inverse(x) for x in a.rows()])
        if a.ndim != 2 or a.shape[0] != a.shape[1]:
            raise AbsRaise('LinAlgError', ('not square',), self.where())
        n = a.shape[0]
        return self.solve(a, Arr([self.F.num(int(i == j)) for i in range(n) for j in range(n)], (n, n)))

    def solve(self, a, b):
        F = self.F
        n = a.shape[0]
        if a.ndim != 2 or a.shape[1] != n:
            raise AbsRaise('LinAlgError', ('not square',), self.where())
        if b.shape[0] != n:
            raise AbsRaise('ValueError', ('solve: shape mismatch',), self.where())
        m = b.shape[1] if b.ndim == 2 else 1
        fa, fb = a.flat, b.flat
        for x in fa + fb:
            if isinstance(x, Opaque):
                self.unk('unknown matrix entry')
            if not self.isnum(x):
                self.unk('matrix entry')
        M = [[F.num(x) for x in fa[i * n:(i + 1) * n]] + [F.num(x) for x in fb[i * m:(i + 1) * m]] for i in range(n)]
        if any(not isinstance(x, Num) for r in M for x in r):
            return Arr([NAN] * (n * m), b.shape)
        for i in range(n):
            p = next((r for r in range(i, n) if M[r][i].fp != (0, 0)), None)
            if p is None:
                raise AbsRaise('LinAlgError', ('Singular matrix',), self.where())
            M[i], M[p] = M[p], M[i]
            q = F.inv(M[i][i])
            M[i] = [F.mul(x, q) for x in M[i]]
            for r in range(n):
                if r != i and M[r][i].fp != (0, 0):
                    k = M[r][i]
                    M[r] = [F.sub(x, F.mul(k, y)) for x, y in zip(M[r], M[i])]
        out = []
        for i in range(n):
            for j in range(m):
                x = M[i][n + j]
                out.append(Num(x.re, x.im, None, x.c, x.d if len(x.d) < 40 else '…'))
        return Arr(out, b.shape)

    def stack(self, parts, axis=0):
        parts = [self.asarr(p) for p in parts]
        if not parts:
            raise AbsRaise('ValueError', ('need at least one array',), self.where())
        if any(p.shape != parts[0].shape for p in parts):
            raise AbsRaise('ValueError', ('all input arrays must have the same shape',), self.where())
        r = Arr([x for p in parts for x in p.flat], (len(parts),) + parts[0].shape)
        if axis in (0, -r.ndim):
            return r
        if axis < 0:
            axis += r.ndim
        perm = list(range(1, axis + 1)) + [0] + list(range(axis + 1, r.ndim))
        return self.transpose(r, perm).copy()

    def transpose(self, a, perm=None):
        perm = list(reversed(range(a.ndim))) if perm is None else [p % a.ndim for p in perm]
        sh = tuple(a.shape[p] for p in perm)
        st, k = [], 1
        for n in reversed(a.shape):
            st.append(k)
            k *= n
        st.reverse()
        off = [a.off[sum(i * st[p] for i, p in zip(ix, perm))] for ix in itertools.product(*[range(n) for n in sh])]
        return Arr(a.buf, sh, off, a.dt)

    def concat(self, parts, axis=0):
        parts = [self.asarr(p) for p in parts]
        if axis < 0:
            axis += parts[0].ndim
        sh = parts[0].shape
        for p in parts:
            if p.ndim != len(sh) or any(x != y for k, (x, y) in enumerate(zip(p.shape, sh)) if k != axis):
                raise AbsRaise('ValueError', ('concatenate: shape mismatch',), self.where())
        if not sh:
            raise AbsRaise('ValueError', ('zero-dimensional arrays cannot be concatenated',), self.where())
        outer = prod(sh[:axis])
        out = []
        for i in range(outer):
            for p in parts:
                k = prod(p.shape[axis:])
                out += p.flat[i * k:(i + 1) * k]
        return Arr(out, sh[:axis] + (sum(p.shape[axis] for p in parts),) + sh[axis + 1:])

    def reshape(self, a, shape):
        if isinstance(shape, int):
            shape = (shape,)
        if isinstance(shape, Arr):
            shape = shape.flat
        shape = [self.toint(x) for x in shape]
        n = len(a.off)
        if -1 in shape:
            k = prod([x for x in shape if x != -1])
            if not k or n % k:
                raise AbsRaise('ValueError', ('cannot reshape',), self.where())
            shape[shape.index(-1)] = n // k
        if prod(shape) != n:
            raise AbsRaise('ValueError', (f'cannot reshape {a.shape} into {shape}',), self.where())
        return Arr(a.buf, tuple(shape), list(a.off), a.dt)

    def toint(self, v):
        if isinstance(v, (int, bool)):
            return int(v)
        if isinstance(v, Num) and v.c is not None:
            return int(v.c)
        if isinstance(v, Arr) and len(v.off) == 1:
            return self.toint(v.flat[0])
        if isinstance(v, Opaque) or isinstance(v, (Num, Inf)):
            self.unk('symbolic integer')
        raise AbsRaise('TypeError', ('an integer is required',), self.where())

    def isint(self, v):
        return isinstance(v, int)

    def index(self, a, idx):
        """-> (offsets, shape, view?)"""
        if not isinstance(idx, tuple):
            idx = (idx,)
        if len(idx) == 1 and isinstance(idx[0], list) and not idx[0]:
            idx = (Arr([], (0,)),)
        idx = [self.asarr(i) if isinstance(i, (list, range)) else i for i in idx]
        # boolean masks
        out = []
        for i in idx:
            if isinstance(i, Arr) and i.off and all(isinstance(x, bool) for x in i.flat):
                pos = [ix for ix, x in zip(itertools.product(*[range(n) for n in i.shape]), i.flat) if x]
                for d in range(i.ndim):
                    out.append(Arr([p[d] for p in pos], (len(pos),)))
            else:
                out.append(i)
        idx = out
        n = sum(1 for i in idx if i is not None and i is not Ellipsis)
        if Ellipsis in [i if i is Ellipsis else 0 for i in idx]:
            k = next(j for j, i in enumerate(idx) if i is Ellipsis)
            idx = idx[:k] + [slice(None)] * (a.ndim - n) + idx[k + 1:]
        else:
            idx = idx + [slice(None)] * (a.ndim - n)
        if sum(1 for i in idx if i is not None) > a.ndim:
            raise AbsRaise('IndexError', ('too many indices for array',), self.where())
        st, k = [], 1
        for m in reversed(a.shape):
            st.append(k)
            k *= m
        st.reverse()
        dims = []           # ('s', [positions*stride]) | ('i', off) | ('n',) | ('f', Arr)
        ax = 0
        for i in idx:
            if i is None:
                dims.append(('n',))
                continue
            size = a.shape[ax]
            if isinstance(i, slice):
                r = range(*i.indices(size))
                dims.append(('s', [x * st[ax] for x in r]))
            elif isinstance(i, Arr) and i.ndim > 0:
                vals = []
                for x in i.flat:
                    x = self.toint(x)
                    if not -size <= x < size:
                        raise AbsRaise('IndexError', ('index out of bounds',), self.where())
                    vals.append(x % size * st[ax])
                dims.append(('f', Arr(vals, i.shape)))
            else:
                if isinstance(i, (str, dict)) or (isinstance(i, Num) and i.c is not None):
                    raise AbsRaise('IndexError', ('only integers are valid indices',), self.where())
                x = self.toint(i)
                if not -size <= x < size:
                    raise AbsRaise('IndexError', ('index out of bounds',), self.where())
                dims.append(('i', x % size * st[ax]))
            ax += 1
        fancy = [d for d in dims if d[0] == 'f']
        if not fancy:
            shape, lists = [], []
            base = 0
            for d in dims:
                if d[0] == 'i':
                    base += d[1]
                elif d[0] == 'n':
                    shape.append(1)
                    lists.append([0])
                else:
                    shape.append(len(d[1]))
                    lists.append(d[1])
            off = [a.off[base + sum(c)] for c in itertools.product(*lists)]
            return off, tuple(shape), True
        fsh = ()
        for d in fancy:
            fsh = self.bshape(fsh, d[1].shape)
        tot = [0] * prod(fsh)
        for d in dims:
            if d[0] == 'f':
                tot = [x + y for x, y in zip(tot, self.spread(d[1], fsh))]
            elif d[0] == 'i':
                tot = [x + d[1] for x in tot]
        fpos = [k for k, d in enumerate(dims) if d[0] in ('f', 'i')]
        contiguous = fpos == list(range(fpos[0], fpos[-1] + 1))
        shape, lists, placed = [], [], False
        seq = []
        if not contiguous:
            seq.append(('F',))
            placed = True
        for k, d in enumerate(dims):
            if d[0] in ('f', 'i'):
                if not placed:
                    seq.append(('F',))
                    placed = True
            else:
                seq.append(d)
        for d in seq:
            if d[0] == 'F':
                shape += list(fsh)
                lists.append(tot)
            elif d[0] == 'n':
                shape.append(1)
                lists.append([0])
            else:
                shape.append(len(d[1]))
                lists.append(d[1])
        off = [a.off[sum(c)] for c in itertools.product(*lists)]
        return off, tuple(shape), False

    def getitem(self, b, i):
        if isinstance(b, Ref) and b.kind == 'ext' and b.x in ('numpy.r_', 'numpy.c_'):
            parts = list(i) if isinstance(i, tuple) else [i]
            if b.x.endswith('c_') or any(isinstance(p, (str, slice)) for p in parts):
                self.unk(b.x)
            parts = [self.asarr(p) for p in parts]
            return self.concat([p if p.ndim else Arr(p.buf, (1,), p.off) for p in parts])
        if isinstance(b, Opaque):
            return Opaque(f'{b.d}[]')
        if isinstance(b, Arr):
            off, sh, view = self.index(b, i)
            if sh == ():
                return b.buf[off[0]]
            if view:
                return Arr(b.buf, sh, off, b.dt)
            return Arr([b.buf[k] for k in off], sh, dt=b.dt)
        if isinstance(b, (list, tuple, str, range)):
            if isinstance(i, slice):
                return b[i]
            if isinstance(i, (Arr, Opaque)) or self.isnum(i):
                if isinstance(i, Num) and i.c is not None and False:
                    pass
                k = self.toint(i)
            else:
                raise AbsRaise('TypeError', ('list indices must be integers',), self.where())
            if not -len(b) <= k < len(b):
                raise AbsRaise('IndexError', ('index out of range',), self.where())
            return b[k]
        if isinstance(b, dict):
            if isinstance(i, Opaque):
                return Opaque('dict item')
            try:
                return b[self.hashable(i)]
            except KeyError:
                raise AbsRaise('KeyError', (i,), self.where())
        if isinstance(b, Obj):
            m = b.cls.find('__getitem__')
            if m:
                return self.callfunc(m, b, [i], {}, b.cls)
        if isinstance(b, _re.Match):
            return b[i]
        raise AbsRaise('TypeError', (f'{type(b).__name__} is not subscriptable',), self.where())

    def setitem(self, b, i, v):
        if isinstance(b, Opaque):
            return
        if isinstance(b, Arr):
            off, sh, _ = self.index(b, i)
            if isinstance(v, Opaque):
                for k in off:
                    b.buf[k] = Opaque('entry')
                return
            va = self.asarr(v)
            while va.ndim > len(sh) and va.shape[0] == 1:
                va = Arr(va.buf, va.shape[1:], va.off)
            if self.bshape(va.shape, sh) != sh:
                raise AbsRaise('ValueError', ('could not broadcast input array',), self.where())
            for k, x in zip(off, self.spread(va, sh)):
                b.buf[k] = x
            return
        if isinstance(b, list):
            if isinstance(i, slice):
                b[i] = self.iterate(v)
                return
            k = self.toint(i)
            if not -len(b) <= k < len(b):
                raise AbsRaise('IndexError', ('assignment index out of range',), self.where())
            b[k] = v
            return
        if isinstance(b, dict):
            b[self.hashable(i)] = v
            return
        if isinstance(b, Obj):
            m = b.cls.find('__setitem__')
            if m:
                self.callfunc(m, b, [i, v], {}, b.cls)
                return
        raise AbsRaise('TypeError', (f'{type(b).__name__} does not support item assignment',), self.where())

    # ---------------------------------------------------------- statements
    def block(self, body):
        for s in body:
            r = self.stmt(s)
            if r is not None:
                return r
        return None

    def stmt(self, s):
        self.steps -= 1
        if self.steps < 0:
            raise Unknown('step budget')
        self.node = s
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unk(f'statement {type(s).__name__}')
        return m(s)

    def s_Pass(self, s):
        return None

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t))
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            old = self.getattr(b, t.attr)
        else:
            b = self.ev(t.value)
            i = self.evindex(t.slice)
            old = self.getitem(b, i)
        v = self.ev(s.value)
        self.node = s
        if isinstance(old, list) and isinstance(s.op, ast.Add):
            old.extend(self.iterate(v))
            new = old
        elif isinstance(old, Arr):
            r = self.asarr(self.arith(type(s.op), old, v))
            if r.shape != old.shape:
                raise AbsRaise('ValueError', ('non-broadcastable output operand',), self.where())
            for k, x in zip(old.off, r.flat):
                old.buf[k] = x
            new = old
        elif isinstance(old, set) and isinstance(s.op, (ast.BitOr, ast.Sub, ast.BitAnd)):
            r = self.arith(type(s.op), old, v)
            old.clear()
            old |= r
            new = old
        else:
            new = self.arith(type(s.op), old, v)
        if isinstance(t, ast.Name):
            self.setname(t.id, new)
        elif isinstance(t, ast.Attribute):
            self.setattr(b, t.attr, new)
        else:
            self.setitem(b, i, new)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setname(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            self.setitem(b, self.evindex(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Opaque):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, Opaque(v.d))
                return
            vs = self.iterate(v)
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                m = len(t.elts) - k - 1
                if len(vs) < len(t.elts) - 1:
                    raise AbsRaise('ValueError', ('not enough values to unpack',), self.where())
                for e, x in zip(t.elts[:k], vs[:k]):
                    self.assign(e, x)
                self.assign(t.elts[k].value, list(vs[k:len(vs) - m]))
                for e, x in zip(t.elts[k + 1:], vs[len(vs) - m:]):
                    self.assign(e, x)
                return
            if len(vs) != len(t.elts):
                raise AbsRaise('ValueError', ('unpack count',), self.where())
            for e, x in zip(t.elts, vs):
                self.assign(e, x)
        else:
            self.unk('assignment target')

    def setname(self, n, v):
        f = self.fr
        if n in f.globals:
            self.modglobals.setdefault(f.mod.name, {})[n] = v
            return
        if n in f.nonlocals:
            p = f.parent
            while p is not None:
                if n in p.vars:
                    p.vars[n] = v
                    return
                p = p.parent
        f.vars[n] = v

    def s_Return(self, s):
        return Ret(self.ev(s.value) if s.value is not None else None)

    def s_If(self, s):
        return self.block(s.body if self.truth(self.ev(s.test)) else s.orelse)

    def s_For(self, s):
        it = self.iterate_lazy(self.ev(s.iter))
        for x in it:
            self.assign(s.target, x)
            r = self.block(s.body)
            if r is BREAK:
                return None
            if r is CONTINUE or r is None:
                continue
            return r
        return self.block(s.orelse)

    def iterate_lazy(self, v):
        if isinstance(v, list):
            # a list may grow while it is iterated
            def g():
                k = 0
                while k < len(v):
                    yield v[k]
                    k += 1
                    if k > 5000:
                        self.unk('long loop')
            return g()
        return self.iterate(v)

    def s_While(self, s):
        for n in range(100000):
            if n > 400:
                self.unk('long while loop')
            if not self.truth(self.ev(s.test)):
                return self.block(s.orelse)
            r = self.block(s.body)
            if r is BREAK:
                return None
            if r is CONTINUE or r is None:
                continue
            return r

    def s_Break(self, s):
        return BREAK

    def s_Continue(self, s):
        return CONTINUE

    def s_Global(self, s):
        self.fr.globals |= set(s.names)

    def s_Nonlocal(self, s):
        self.fr.nonlocals |= set(s.names)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value)
                i = self.evindex(t.slice)
                if isinstance(b, dict):
                    if i not in b:
                        raise AbsRaise('KeyError', (i,), self.where())
                    del b[i]
                elif isinstance(b, list):
                    del b[i if isinstance(i, slice) else self.toint(i)]
                else:
                    self.unk('del')
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value)
                if isinstance(b, Obj):
                    if t.attr not in b.attrs:
                        raise AbsRaise('AttributeError', (t.attr,), self.where())
                    del b.attrs[t.attr]

    def s_Assert(self, s):
        if not self.truth(self.ev(s.test)):
            raise AbsRaise('AssertionError', (), self.where())

    def s_Raise(self, s):
        if s.exc is None:
            cur = getattr(self.fr, 'handling', None)
            if cur is not None:
                raise cur
            raise AbsRaise('RuntimeError', (), self.where())
        v = self.ev(s.exc)
        self.node = s
        if isinstance(v, Ref) and v.kind == 'exc':
            self.stated(v.x, (), s)
        if isinstance(v, tuple) and len(v) == 3 and v[0] == 'exc':
            self.stated(v[1], v[2], s)
        if isinstance(v, AbsRaise):
            raise v
        if isinstance(v, Ref) and v.kind == 'class' or isinstance(v, Obj):
            c = v.x if isinstance(v, Ref) else v.cls
            self.stated(c.name, (), s, v)
        if isinstance(v, Opaque):
            self.unk('raise of unknown')
        raise AbsRaise('TypeError', ('exceptions must derive from BaseException',), self.where())

    def stated(self, name, args, s, obj=None):
        e = AbsRaise(name, args, self.where(), obj)
        e.stated = (self.fr.func.qual if self.fr.func else self.fr.mod.name, s.lineno)
        raise e

    def s_Try(self, s):
        fr = self.fr
        depth = self.depth
        try:
            r = self.try_body(s, fr, depth)
        except AbsRaise:
            self.fr, self.depth = fr, depth
            q = self.block(s.finalbody)
            if q is not None:
                return q
            raise
        q = self.block(s.finalbody)
        return q if q is not None else r

    def try_body(self, s, fr, depth):
        try:
            r = self.block(s.body)
        except AbsRaise as e:
            self.fr, self.depth = fr, depth
            for h in s.handlers:
                if self.matches(h.type, e):
                    old = getattr(fr, 'handling', None)
                    fr.handling = e
                    if h.name:
                        fr.vars[h.name] = e
                    try:
                        return self.block(h.body)
                    finally:
                        fr.handling = old
            raise
        return r if r is not None else self.block(s.orelse)

    def matches(self, t, e):
        if t is None:
            return True
        v = self.ev(t)
        vs = v if isinstance(v, tuple) and not (v and v[0] == 'exc') else (v,)
        for x in vs:
            if isinstance(x, Ref) and x.kind == 'exc' and exc_is(e.name, x.x):
                return True
            if isinstance(x, Ref) and x.kind == 'ext' and exc_is(e.name, str(x.x).split('.')[-1]):
                return True
            if isinstance(x, Ref) and x.kind == 'class' and x.x.name == e.name:
                return True
        return False

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        return self.block(s.body)

    def s_FunctionDef(self, s):
        from .loader import Func
        f = Func(s, self.fr.mod, None, self.fr.func)
        defaults = [self.ev(d) for d in s.args.defaults]
        kwd = [self.ev(d) if d is not None else None for d in s.args.kw_defaults]
        self.fr.vars[s.name] = Ref('func', f, env=self.fr, cls=(defaults, kwd))

    def s_Import(self, s):
        for a in s.names:
            self.fr.vars[a.asname or a.name.split('.')[0]] = Ref('ext', a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, s):
        for a in s.names:
            if s.level or (s.module or '').split('.')[0] == 'pyRFtk':
                mod = (s.module or '').replace('pyRFtk', '').lstrip('.')
                m = self.pkg.modules.get(mod or a.name)
                if m is None:
                    self.fr.vars[a.asname or a.name] = Opaque(a.name)
                elif mod:
                    self.fr.vars[a.asname or a.name] = self.modname(m, a.name)
                else:
                    self.fr.vars[a.asname or a.name] = Ref('module', m)
            else:
                self.fr.vars[a.asname or a.name] = self.extattr(f'{s.module}.{a.name}')

    def s_ClassDef(self, s):
        self.fr.vars[s.name] = Opaque(s.name)

    # --------------------------------------------------------- expressions
    def ev(self, n):
        self.steps -= 1
        if self.steps < 0:
            raise Unknown('step budget')
        old, self.node = self.node, n
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.unk(f'expression {type(n).__name__}')
        r = m(n)
        self.node = old
        return r

    def e_Constant(self, n):
        v = n.value
        if isinstance(v, (float, complex)):
            return self.F.num(v)
        return v

    def e_Name(self, n):
        return self.name(n.id)

    def name(self, nm):
        f = self.fr
        if nm not in f.globals:
            p = f
            while p is not None:
                if nm in p.vars:
                    return p.vars[nm]
                p = p.parent
        return self.modname(f.mod, nm)

    def modname(self, mod, nm):
        if mod is None:
            return self.builtin(nm)
        g = self.modglobals.setdefault(mod.name, {})
        if nm in g:
            return g[nm]
        if nm in ('__package__', '__name__'):
            return 'pyRFtk'
        if self.level is not None:
            if nm == 'tLogger':
                return self.logger()
        elif nm == 'logit':
            return {k: False for k in ('DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL', 'NOTSET')}
        elif nm == 'tLogger':
            return Opaque('logger')
        r = self.pkg.resolve(mod, nm)
        if r is None:
            return self.builtin(nm)
        if r[0] == 'func':
            f = r[1]
            if f.name == '_newID':
                return Ref('py', lambda ev, a, k: '0')
            if self.level is None and f.name in ('logident', 'ident') and f.mod.name == 'config':
                return Ref('py', lambda ev, a, k: '')
            if self.level is None and f.name == 'whoami':
                return Ref('py', lambda ev, a, k: 'whoami')
            return Ref('func', f)
        if r[0] == 'class':
            return Ref('class', r[1])
        if r[0] == 'module':
            return Ref('module', r[1])
        if r[0] == 'ext':
            return self.extattr(r[1]) if '.' in r[1] else Ref('ext', r[1])
        if r[0] == 'const':
            _, m, name, expr = r
            g2 = self.modglobals.setdefault(m.name, {})
            if name in g2:
                return g2[name]
            if expr is None:
                v = Opaque(name)
            else:
                old, oldn = self.fr, self.node
                self.fr = Frame(None, None, m)
                try:
                    v = self.ev(expr)
                finally:
                    self.fr, self.node = old, oldn
            g2[name] = v
            return v
        return Opaque(nm)

    BUILTINS = ('len', 'range', 'enumerate', 'zip', 'list', 'tuple', 'dict', 'set', 'frozenset', 'str', 'int', 'float',
                'complex', 'bool', 'abs', 'min', 'max', 'sum', 'any', 'all', 'sorted', 'reversed', 'map', 'filter',
                'isinstance', 'hasattr', 'getattr', 'setattr', 'type', 'print', 'repr', 'round', 'pow', 'divmod', 'id',
                'callable', 'iter', 'next', 'super', 'object', 'slice', 'chr', 'ord', 'hash', 'vars', 'format',
                'issubclass', 'open', 'eval', 'globals', 'locals', 'hex', 'bytes', 'input', 'delattr', 'property',
                'staticmethod', 'classmethod', 'dir')

    def builtin(self, nm):
        if nm in EXC:
            return Ref('exc', nm)
        if nm in self.BUILTINS:
            return Ref('builtin', nm)
        if nm == 'Ellipsis':
            return Ellipsis
        raise AbsRaise('NameError', (nm,), self.where())

    def e_Attribute(self, n):
        b = self.ev(n.value)
        return self.getattr(b, n.attr)

    def getattr(self, b, a, default=None, hasdef=False):
        if isinstance(b, Obj):
            if a == '__dict__':
                return b.attrs
            if a == '__class__':
                return Ref('class', b.cls)
            if a in b.attrs:
                return b.attrs[a]
            m = b.cls.find(a)
            if m:
                for d in getattr(m.node, 'decorator_list', []):
                    if isinstance(d, ast.Name) and d.id == 'property':
                        return self.callfunc(m, b, [], {}, b.cls)
                    if isinstance(d, ast.Name) and d.id == 'staticmethod':
                        return Ref('func', m)
                return Ref('method', m, recv=b, cls=b.cls)
            for c in b.cls.mro():
                if a in c.classattrs:
                    return self.ev_in(c.classattrs[a], c.mod)
            if hasdef:
                return default
            raise AbsRaise('AttributeError', (a,), self.where())
        if isinstance(b, Opaque):
            return Opaque(f'{b.d}.{a}')
        if isinstance(b, Ref):
            if b.kind == 'ext':
                return self.extattr(f'{b.x}.{a}')
            if b.kind == 'ns' and a in b.x:
                return b.x[a]
            if a == '__call__' and b.kind in ('py', 'func', 'method', 'bmeth', 'amap', 'class'):
                return b
            if b.kind == 'module':
                return self.modname(b.x, a)
            if b.kind == 'class':
                if a == '__name__':
                    return b.x.name
                m = b.x.find(a)
                if m:
                    return Ref('func', m, cls=None)
                if a == '__new__':
                    return Ref('py', lambda ev, args, kws: Obj(args[0].x))
                for c in b.x.mro():
                    if a in c.classattrs:
                        return self.ev_in(c.classattrs[a], c.mod)
            if b.kind == 'super':
                obj, after = b.x
                m = obj.cls.find(a, after)
                if m:
                    return Ref('method', m, recv=obj, cls=obj.cls)
                if a in ('__init__', '__setattr__', '__getattribute__'):
                    if a == '__setattr__':
                        return Ref('py', lambda ev, args, kws: obj.attrs.__setitem__(args[0], args[1]))
                    return Ref('py', lambda ev, args, kws: None)
            if b.kind == 'builtin' and a == '__name__':
                return b.x
            if b.kind == 'builtin':
                return Ref('tmeth', (b.x, a))
            if b.kind in ('func', 'method') and a in ('__name__', '__doc__', '__module__', '__qualname__'):
                return b.x.name
            if b.kind == 'func':
                # function attributes
                d = self.modglobals.setdefault('__fattr__', {})
                if (id(b.x), a) in d:
                    return d[(id(b.x), a)]
            if hasdef:
                return default
            raise AbsRaise('AttributeError', (a,), self.where())
        if isinstance(b, Arr):
            v = self.arrattr(b, a)
            if v is not None:
                return v
        if isinstance(b, (Num, Inf, Nan)) or self.isnum(b):
            if a in ('real', 'imag'):
                x = self.F.num(b)
                return self.F.realpart(x) if a == 'real' else self.F.imagpart(x)
            if a in ('conjugate', 'conj', 'copy', 'item', 'tolist', 'astype'):
                return Ref('py', lambda ev, args, kws: ev.F.conj(ev.F.num(b)) if a.startswith('conj') else b)
            if a == 'shape' and isinstance(b, (Num, Inf, Nan)) and hasdef:
                return default
            if a == 'is_integer':
                return Ref('py', lambda ev, args, kws: ev.isinteger(b))
        elif isinstance(b, AbsRaise):
            if a == 'args':
                return tuple(b.args_)
            if a.startswith('__') or a in ('with_traceback', 'add_note', 'errno', 'strerror', 'filename', 'name', 'obj') or b.obj is not None:
                return Opaque(a)
            raise AbsRaise('AttributeError', (a,), self.where())
        elif isinstance(b, (list, tuple, dict, set, str, range)):
            if a == '__class__':
                return Ref('builtin', type(b).__name__)
            if hasattr(b, a):
                return Ref('bmeth', a, recv=b)
        elif isinstance(b, (_re.Match, _re.Pattern)):
            return Ref('bmeth', a, recv=b)
        if hasdef:
            return default
        raise AbsRaise('AttributeError', (f'{type(b).__name__}.{a}',), self.where())

    def isinteger(self, b):
        b = self.F.num(b)
        if isinstance(b, Num) and b.c is not None:
            return b.c.denominator == 1
        return False

    def ev_in(self, expr, mod):
        old, oldn = self.fr, self.node
        self.fr = Frame(None, None, mod)
        try:
            return self.ev(expr)
        finally:
            self.fr, self.node = old, oldn

    def setattr(self, b, a, v):
        if isinstance(b, Obj):
            m = b.cls.find('__setattr__')
            if m and not getattr(self, '_in_setattr', False):
                self._in_setattr = True
                try:
                    self.callfunc(m, b, [a, v], {}, b.cls)
                finally:
                    self._in_setattr = False
                return
            b.attrs[a] = v
            return
        if isinstance(b, Opaque):
            return
        if isinstance(b, Ref) and b.kind == 'func':
            self.modglobals.setdefault('__fattr__', {})[(id(b.x), a)] = v
            return
        if isinstance(b, Ref) and b.kind == 'module':
            self.modglobals.setdefault(b.x.name, {})[a] = v
            return
        if isinstance(b, Arr) and a == 'shape':
            r = self.reshape(b, v)
            b.shape = r.shape
            return
        raise AbsRaise('AttributeError', (a,), self.where())

    def e_Subscript(self, n):
        b = self.ev(n.value)
        i = self.evindex(n.slice)
        self.node = n
        return self.getitem(b, i)

    def evindex(self, n):
        if isinstance(n, ast.Slice):
            f = lambda x: None if x is None else self.toidx(self.ev(x))
            return slice(f(n.lower), f(n.upper), f(n.step))
        if isinstance(n, ast.Tuple):
            out = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    out += self.iterate(self.ev(e.value))
                else:
                    out.append(self.evindex(e))
            return tuple(out)
        return self.ev(n)

    def toidx(self, v):
        return None if v is None else self.toint(v)

    def e_Slice(self, n):
        return self.evindex(n)

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        self.node = n
        return self.arith(type(n.op), a, b)

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, Opaque):
            return Opaque('value')
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, bool)):
                return -v
            if isinstance(v, (Arr,)):
                return self.maparr(lambda x: self.scalar(ast.Mult, -1, x, True), v)
            if self.isnum(v):
                return self.F.neg(self.F.num(v))
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if isinstance(v, bool):
                return not v        # numpy booleans
            if isinstance(v, Arr):
                return self.maparr(lambda x: not self.truth(x), v)
            if isinstance(v, int):
                return ~v
        raise AbsRaise('TypeError', ('unary operand',), self.where())

    def e_BoolOp(self, n):
        v = None
        for e in n.values:
            v = self.ev(e)
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t or isinstance(n.op, ast.Or) and t:
                return v
        return v

    def e_IfExp(self, n):
        return self.ev(n.body if self.truth(self.ev(n.test)) else n.orelse)

    def e_Compare(self, n):
        l = self.ev(n.left)
        res = True
        for o, c in zip(n.ops, n.comparators):
            r = self.ev(c)
            self.node = n
            op = type(o)
            if op in (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE) and (
                    isinstance(l, Arr) or isinstance(r, Arr)) and l is not None and r is not None and not (
                    isinstance(l, (str, dict, Ref, Opaque)) or isinstance(r, (str, dict, Ref, Opaque))):
                res = self.binop_arr(lambda x, y: self.cmp(op, x, y), l, r)
            else:
                res = self.cmp(op, l, r)
            if len(n.ops) > 1 and not self.truth(res):
                return res
            l = r
        return res

    def seq(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out += self.iterate(self.ev(e.value))
            else:
                out.append(self.ev(e))
        return out

    def e_List(self, n):
        return self.seq(n.elts)

    def e_Tuple(self, n):
        return tuple(self.seq(n.elts))

    def e_Set(self, n):
        return set(self.seq(n.elts))

    def e_Dict(self, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v))
            else:
                d[self.hashable(self.ev(k))] = self.ev(v)
        return d

    def e_JoinedStr(self, n):
        s = ''
        for v in n.values:
            if isinstance(v, ast.Constant):
                s += v.value
            else:
                x = self.ev(v.value)
                spec = self.ev(v.format_spec) if v.format_spec is not None else ''
                s += self.fmtval(x, spec, 'r' if v.conversion == 114 else None)
        return s

    def e_FormattedValue(self, n):
        return self.text(self.ev(n.value))

    def e_Lambda(self, n):
        from .loader import Func
        f = Func(n, self.fr.mod, None, self.fr.func)
        return Ref('func', f, env=self.fr, cls=([self.ev(d) for d in n.args.defaults],
                                                [self.ev(d) if d is not None else None for d in n.args.kw_defaults]))

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        f = self.fr
        while getattr(f, 'comp', False):
            f = f.parent
        f.vars[n.target.id] = v
        return v

    def e_Starred(self, n):
        self.unk('starred')

    def e_Yield(self, n):
        f = self.fr
        while getattr(f, 'comp', False):
            f = f.parent
        f.yields.append(self.ev(n.value) if n.value is not None else None)
        return None

    def e_YieldFrom(self, n):
        self.fr.yields += self.iterate(self.ev(n.value))
        return None

    def comp(self, n, leaf):
        fr = Frame(self.fr.func, self.fr, self.fr.mod, self.fr.cls)
        fr.caller, fr.names = self.fr.caller, self.fr.names
        fr.comp = True
        fr.selfv = self.fr.selfv
        old, self.fr = self.fr, fr

        def rec(k):
            if k == len(n.generators):
                leaf()
                return
            g = n.generators[k]
            for x in self.iterate(self.ev(g.iter)):
                self.assign(g.target, x)
                if all(self.truth(self.ev(c)) for c in g.ifs):
                    rec(k + 1)
        try:
            rec(0)
        finally:
            self.fr = old

    def e_ListComp(self, n):
        out = []
        self.comp(n, lambda: out.append(self.ev(n.elt)))
        return out

    def e_GeneratorExp(self, n):
        return self.e_ListComp(n)

    def e_SetComp(self, n):
        out = set()
        self.comp(n, lambda: out.add(self.ev(n.elt)))
        return out

    def e_DictComp(self, n):
        out = {}
        self.comp(n, lambda: out.__setitem__(self.ev(n.key), self.ev(n.value)))
        return out

    # --------------------------------------------------------------- calls
    def e_Call(self, n):
        f = self.ev(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += self.iterate(self.ev(a.value))
            else:
                args.append(self.ev(a))
        kws = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                if isinstance(d, Opaque):
                    self.unk('** of unknown')
                if not isinstance(d, dict):
                    raise AbsRaise('TypeError', ('** needs a mapping',), self.where())
                for kk, vv in d.items():
                    if kk in kws:
                        raise AbsRaise('TypeError', ('multiple values for keyword',), self.where())
                    kws[kk] = vv
            else:
                if k.arg in kws:
                    raise AbsRaise('TypeError', ('multiple values for keyword',), self.where())
                kws[k.arg] = self.ev(k.value)
        self.node = n
        return self.apply(f, args, kws)

    def apply(self, f, args, kws):
        if isinstance(f, Opaque):
            return Opaque(f'{f.d}()')
        if isinstance(f, Obj):
            m = f.cls.find('__call__')
            if m:
                return self.callfunc(m, f, args, kws, f.cls)
            raise AbsRaise('TypeError', ('object is not callable',), self.where())
        if not isinstance(f, Ref):
            raise AbsRaise('TypeError', (f'{type(f).__name__} object is not callable',), self.where())
        k = f.kind
        if k == 'py':
            return f.x(self, args, kws)
        if k == 'func':
            if f.x.qual in self.override:
                return self.override[f.x.qual](self, args, kws)
            if f.x.cls is not None and args and isinstance(args[0], Obj) and f.recv is None:
                return self.callfunc(f.x, args[0], args[1:], kws, f.x.cls)
            return self.callfunc(f.x, None, args, kws, None, env=f.env, defaults=f.cls)
        if k == 'method':
            if f.x.qual in self.override:
                return self.override[f.x.qual](self, [f.recv] + args, kws)
            return self.callfunc(f.x, f.recv, args, kws, f.cls)
        if k == 'class':
            return self.construct(f.x, args, kws)
        if k == 'exc':
            return ('exc', f.x, tuple(args))
        if k == 'ext':
            return self.callext(f.x, args, kws)
        if k == 'builtin':
            return self.callbuiltin(f.x, args, kws)
        if k == 'bmeth':
            return self.callmeth(f.recv, f.x, args, kws)
        if k == 'tmeth':
            t, m = f.x
            if t == 'dict' and m == 'fromkeys':
                return {x: (args[1] if len(args) > 1 else None) for x in self.iterate(args[0])}
            if not args:
                self.unk(f'{t}.{m}')
            return self.callmeth(args[0], m, args[1:], kws)
        if k == 'amap':
            return f.x(self, args, kws)
        self.unk(f'call of {f}')

    def construct(self, cls, args, kws):
        o = Obj(cls)
        m = cls.find('__init__')
        if m:
            self.callfunc(m, o, args, kws, cls)
        return o

    def callfunc(self, func, recv, args, kws, cls, env=None, defaults=None):
        if self.inject is not None:
            self.inject(func, recv)
        self.depth += 1
        if self.depth > 60:
            raise Unknown('call depth')
        node = func.node
        fr = Frame(func, env, func.mod, func.cls)
        fr.selfv = recv
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in getattr(node, 'decorator_list', []))
        pos = ([recv] if recv is not None and not static else []) + list(args)
        fname = func.name
        if len(pos) > len(names) and not a.vararg:
            raise AbsRaise('TypeError', (f'{fname}() takes {len(names)} positional arguments but {len(pos)} given',),
                           self.where())
        vars_ = dict(zip(names, pos))
        if a.vararg:
            vars_[a.vararg.arg] = tuple(pos[len(names):])
        extra = {}
        kwo = [x.arg for x in a.kwonlyargs]
        for kname, v in kws.items():
            if kname in names or kname in kwo:
                if kname in vars_:
                    raise AbsRaise('TypeError', (f'{fname}() got multiple values for argument {kname}',), self.where())
                vars_[kname] = v
            else:
                extra[kname] = v
        if a.kwarg:
            vars_[a.kwarg.arg] = extra
        elif extra:
            raise AbsRaise('TypeError', (f'{fname}() got an unexpected keyword argument {sorted(extra)[0]!r}',),
                           self.where())
        if defaults is None:
            key = id(func.node)
            dd = self.modglobals.setdefault('__defaults__', {})
            if key not in dd:
                dd[key] = ([self.ev_in(d, func.mod) for d in a.defaults],
                           [self.ev_in(d, func.mod) if d is not None else None for d in a.kw_defaults])
            defaults = dd[key]
        for x, d in zip(names[len(names) - len(defaults[0]):], defaults[0]):
            vars_.setdefault(x, d)
        for x, d, dn in zip(kwo, defaults[1], a.kw_defaults):
            if dn is not None:
                vars_.setdefault(x, d)
        missing = [x for x in names + kwo if x not in vars_]
        if missing:
            raise AbsRaise('TypeError', (f'{fname}() missing required argument {missing[0]!r}',), self.where())
        fr.vars.update(vars_)
        fr.caller, fr.names = self.fr, (names, a.vararg and a.vararg.arg, a.kwarg and a.kwarg.arg)
        old, oldn = self.fr, self.node
        self.fr = fr
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body)
            gen = is_gen(node)
            if gen:
                fr.yields = []
            r = self.block(node.body)
            if gen:
                return fr.yields
            return r.v if isinstance(r, Ret) else None
        finally:
            self.fr, self.node = old, oldn
            self.depth -= 1


def is_gen(node):
    if not hasattr(node, '_isgen'):
        st, g = list(node.body), False
        while st:
            x = st.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                g = True
                break
            st.extend(ast.iter_child_nodes(x))
        node._isgen = g
    return node._isgen
