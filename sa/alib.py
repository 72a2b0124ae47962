"""Library model of the abstract evaluator: builtins, methods of builtin
types and the part of numpy and of the standard library the package uses."""
import ast
import copy as _copy
import itertools
import re as _re
from fractions import Fraction

from .field import Num, Inf, Nan, NAN, PINF, NINF, txt

TYPES = {'list': list, 'tuple': tuple, 'dict': dict, 'set': set, 'str': str, 'range': range}


class Lib:
    # ------------------------------------------------------------ builtins
    def isinst(self, v, t):
        from .aev import Obj, Ref, Arr, Opaque, AbsRaise, exc_is
        if isinstance(t, tuple):
            return any(self.isinst(v, x) for x in t)
        if isinstance(t, Opaque) or isinstance(v, Opaque):
            return self.choose(('isinst', id(v), str(t), self.where()), [False, True], f'isinstance {v} {t}')
        if not isinstance(t, Ref):
            self.unk('isinstance type')
        n = str(t.x.name if t.kind == 'class' else t.x).split('.')[-1]
        if t.kind == 'class':
            return isinstance(v, Obj) and t.x in v.cls.mro()
        if n in TYPES:
            return isinstance(v, TYPES[n])
        if n == 'object':
            return True
        if n == 'bool' or n == 'bool_':
            return isinstance(v, bool)
        if n in ('int', 'integer', 'Integral', 'int64', 'int32'):
            return isinstance(v, int)
        if n in ('float', 'floating', 'float64'):
            return isinstance(v, (Inf, Nan)) or isinstance(v, Num) and v.real
        if n in ('complex', 'complexfloating', 'complex128'):
            return isinstance(v, Num) and not v.real
        if n in ('Number', 'number', 'generic', 'Complex'):
            return self.isnum(v)
        if n == 'Real':
            return isinstance(v, (int, Inf, Nan)) or isinstance(v, Num) and v.real
        if n in ('ndarray', 'matrix'):
            return isinstance(v, Arr) and n == 'ndarray'
        if n in ('Iterable', 'Sequence', 'Sized', 'Container', 'Collection'):
            return isinstance(v, (list, tuple, str, range, Arr)) or n != 'Sequence' and isinstance(v, (dict, set))
        if n in ('Mapping', 'MutableMapping'):
            return isinstance(v, dict)
        if n in ('Callable',):
            return isinstance(v, Ref)
        if n in ('Path', 'PurePath', 'IOBase', 'TextIOBase', 'DataFrame', 'Figure', 'interp1d', 'bytes', 'Fraction',
                 'NoneType', 'slice', 'type', 'Axes', 'function', 'FunctionType', 'LambdaType', 'MethodType'):
            return n == 'NoneType' and v is None or 'unction' in n and isinstance(v, Ref) and v.kind == 'func'
        if t.kind == 'exc':
            return isinstance(v, AbsRaise) and exc_is(v.name, n)
        self.unk(f'isinstance {n}')

    def hasattr_(self, v, a):
        from .aev import Obj, Ref, Arr, Opaque, AbsRaise
        if isinstance(v, Opaque):
            return self.choose(('hasattr', id(v), a, self.where()), [False, True], f'hasattr {v} {a}')
        if isinstance(v, Arr):
            return a in NDARRAY
        if isinstance(v, (Num, Inf, Nan)) or self.isnum(v):
            return a in ('real', 'imag', 'conjugate', '__abs__', '__add__', '__float__')
        if isinstance(v, Obj):
            return a in v.attrs or v.cls.find(a) is not None or any(a in c.classattrs for c in v.cls.mro()) or \
                a in ('__dict__', '__class__', '__init__', '__str__', '__repr__')
        if isinstance(v, Ref):
            if v.kind == 'class':
                return v.x.find(a) is not None or a == '__name__'
            if v.kind == 'func' and (id(v.x), a) in self.modglobals.get('__fattr__', {}):
                return True
            return a in ('__call__', '__name__')
        return hasattr(v, a)

    def callbuiltin(self, nm, args, kws):
        from .aev import Obj, Ref, Arr, Opaque, AbsRaise, Frame
        F = self.F
        A = args
        if nm == 'len':
            v = A[0]
            if isinstance(v, Opaque):
                self.unk('len of unknown')
            if isinstance(v, Obj):
                m = v.cls.find('__len__')
                if m:
                    return self.callfunc(m, v, [], {}, v.cls)
            if isinstance(v, Arr):
                if not v.shape:
                    raise AbsRaise('TypeError', ('len() of unsized object',), self.where())
                return v.shape[0]
            if isinstance(v, (list, tuple, dict, set, str, range)):
                return len(v)
            raise AbsRaise('TypeError', ('has no len()',), self.where())
        if nm == 'range':
            return range(*[self.toint(x) for x in A])
        if nm == 'enumerate':
            s = self.toint(A[1] if len(A) > 1 else kws.get('start', 0))
            return [(k + s, x) for k, x in enumerate(self.iterate(A[0]))]
        if nm == 'zip':
            return [tuple(t) for t in zip(*[self.iterate(x) for x in A])]
        if nm in ('list', 'tuple'):
            v = self.iterate(A[0]) if A else []
            return list(v) if nm == 'list' else tuple(v)
        if nm in ('set', 'frozenset'):
            return {self.hashable(x) for x in self.iterate(A[0])} if A else set()
        if nm == 'dict':
            d = {}
            if A:
                if isinstance(A[0], dict):
                    d.update(A[0])
                elif isinstance(A[0], Opaque):
                    self.unk('dict of unknown')
                else:
                    for kv in self.iterate(A[0]):
                        k, v = self.iterate(kv)
                        d[self.hashable(k)] = v
            d.update(kws)
            return d
        if nm == 'str':
            return self.text(A[0]) if A else ''
        if nm == 'format':
            return self.fmtval(A[0], A[1] if len(A) > 1 else '')
        if nm in ('repr', 'hex'):
            return self.text(A[0]) if nm != 'repr' or not isinstance(A[0], str) else repr(A[0])
        if nm == 'int':
            if not A:
                return 0
            if isinstance(A[0], str):
                try:
                    return int(A[0], *[self.toint(x) for x in A[1:]])
                except ValueError as e:
                    raise AbsRaise('ValueError', (str(e),), self.where())
            v = A[0]
            if isinstance(v, Arr) and len(v.off) == 1:
                v = v.flat[0]
            if isinstance(v, Opaque):
                return Opaque('int')
            if isinstance(v, Num) and v.c is None and v.real:
                return F.fun('int', v, real=True)
            if isinstance(v, Inf):
                raise AbsRaise('OverflowError', ('cannot convert float infinity to integer',), self.where())
            if isinstance(v, Nan):
                raise AbsRaise('ValueError', ('cannot convert float NaN to integer',), self.where())
            if not self.isnum(v):
                raise AbsRaise('TypeError', ('int() argument',), self.where())
            return self.toint(v)
        if nm in ('float', 'complex'):
            v = A[0] if A else 0
            if isinstance(v, str):
                try:
                    return self.parse(v, nm)
                except ValueError as e:
                    raise AbsRaise('ValueError', (str(e),), self.where())
            if isinstance(v, Arr) and len(v.off) == 1:
                v = v.flat[0]
            if isinstance(v, Opaque):
                return v
            if not self.isnum(v):
                raise AbsRaise('TypeError', ('float() argument',), self.where())
            v = F.num(v)
            if nm == 'float' and isinstance(v, Num) and not v.real:
                raise AbsRaise('TypeError', ('float() of complex',), self.where())
            if nm == 'complex' and len(A) > 1:
                return F.add(v, F.mul(F.num(1j), F.num(A[1])))
            return v
        if nm == 'bool':
            return self.truth(A[0]) if A else False
        if nm == 'abs':
            v = A[0]
            if isinstance(v, int):
                return abs(v)
            return self.npabs(v)
        if nm in ('min', 'max'):
            xs = self.iterate(A[0]) if len(A) == 1 else list(A)
            if not xs:
                if 'default' in kws:
                    return kws['default']
                raise AbsRaise('ValueError', (f'{nm}() arg is an empty sequence',), self.where())
            key = kws.get('key')
            best = xs[0]
            kb = self.apply(key, [best], {}) if key else best
            for x in xs[1:]:
                kx = self.apply(key, [x], {}) if key else x
                if self.cmp(ast.Lt if nm == 'min' else ast.Gt, kx, kb):
                    best, kb = x, kx
            return best
        if nm == 'sum':
            s = A[1] if len(A) > 1 else kws.get('start', 0)
            for x in self.iterate(A[0]):
                s = self.arith(ast.Add, s, x)
            return s
        if nm == 'any':
            return any(self.truth(x) for x in self.iterate(A[0]))
        if nm == 'all':
            return all(self.truth(x) for x in self.iterate(A[0]))
        if nm == 'sorted':
            return self.sort(self.iterate(A[0]), kws)
        if nm == 'reversed':
            return list(reversed(self.iterate(A[0])))
        if nm == 'map':
            return [self.apply(A[0], list(t), {}) for t in zip(*[self.iterate(x) for x in A[1:]])]
        if nm == 'filter':
            return [x for x in self.iterate(A[1])
                    if (self.truth(x) if A[0] is None else self.truth(self.apply(A[0], [x], {})))]
        if nm == 'isinstance':
            return self.isinst(A[0], A[1])
        if nm == 'issubclass':
            if isinstance(A[0], Ref) and isinstance(A[1], Ref) and A[0].kind == A[1].kind == 'class':
                return A[1].x in A[0].x.mro()
            self.unk('issubclass')
        if nm == 'hasattr':
            return self.hasattr_(A[0], A[1])
        if nm == 'getattr':
            if not isinstance(A[1], str):
                self.unk('getattr')
            if len(A) > 2:
                return self.getattr(A[0], A[1], A[2], True)
            return self.getattr(A[0], A[1])
        if nm == 'setattr':
            self.setattr(A[0], A[1], A[2])
            return None
        if nm == 'delattr':
            A[0].attrs.pop(A[1], None)
            return None
        if nm == 'type':
            v = A[0]
            if isinstance(v, Obj):
                return Ref('class', v.cls)
            if isinstance(v, Arr):
                return Ref('ext', 'numpy.ndarray')
            if isinstance(v, bool):
                return Ref('builtin', 'bool')
            if isinstance(v, int):
                return Ref('builtin', 'int')
            if isinstance(v, (Num, Inf, Nan)):
                return Ref('builtin', 'complex' if isinstance(v, Num) and not v.real else 'float')
            if v is None:
                return Ref('ext', 'types.NoneType')
            if isinstance(v, Ref):
                return Ref('ext', 'types.FunctionType')
            return Ref('builtin', type(v).__name__)
        if nm == 'print':
            f = kws.get('file')
            if isinstance(f, Ref) and f.kind == 'ns' and 'write' in f.x:
                t = [self.text(x) for x in A]
                sep, end = kws.get('sep', ' '), kws.get('end', '\n')
                self.apply(f.x['write'], [(' ' if sep is None else sep).join(t) + ('\n' if end is None else end)], {})
                return None
            self.printed.append(tuple(A))
            return None
        if nm == 'round':
            v = A[0]
            if isinstance(v, int):
                return v
            v = F.num(v)
            if isinstance(v, Num) and v.c is not None:
                nd = self.toint(A[1]) if len(A) > 1 else None
                r = round(v.c, nd) if nd is not None else round(v.c)
                return r if nd is None else F.num(Fraction(r))
            return F.fun('round', v, real=True)
        if nm == 'pow':
            return self.arith(ast.Pow, A[0], A[1])
        if nm == 'divmod':
            return (self.arith(ast.FloorDiv, A[0], A[1]), self.arith(ast.Mod, A[0], A[1]))
        if nm in ('id', 'hash'):
            return Opaque(nm)
        if nm == 'callable':
            return isinstance(A[0], Ref) or isinstance(A[0], Obj) and A[0].cls.find('__call__') is not None
        if nm == 'iter':
            return list(self.iterate(A[0]))
        if nm == 'next':
            xs = self.iterate(A[0])
            if xs:
                return xs[0]
            if len(A) > 1:
                return A[1]
            raise AbsRaise('StopIteration', (), self.where())
        if nm == 'super':
            f = self.fr
            while f is not None and f.selfv is None:
                f = f.parent
            if f is None:
                self.unk('super()')
            return Ref('super', (f.selfv, f.cls))
        if nm == 'vars':
            return A[0].attrs
        if nm == 'slice':
            return slice(*[self.toidx(x) for x in A])
        if nm == 'chr':
            return chr(self.toint(A[0]))
        if nm == 'ord':
            return ord(A[0])
        if nm == 'locals':
            return self.fr.vars
        if nm == 'globals':
            return Ref('globals', self.fr.mod)
        if nm == 'eval' and A and isinstance(A[0], str):
            return self.evaltext(A[0], A[1] if len(A) > 1 else None, A[2] if len(A) > 2 else None)
        if nm == 'open' and self.files is not None and A and isinstance(A[0], str):
            return self.file(A[0], A[1] if len(A) > 1 else kws.get('mode', 'r'))
        self.unk(f'builtin {nm}')

    def fmtstr(self, t, A, kws, auto):
        """str.format"""
        import string
        import _string
        from .aev import AbsRaise
        out = ''
        try:
            parts = list(string.Formatter().parse(t))
        except ValueError as e:
            raise AbsRaise('ValueError', (str(e),), self.where())
        for lit, field, spec, conv in parts:
            out += lit
            if field is None:
                continue
            first, rest = _string.formatter_field_name_split(field)
            if first == '':
                first = auto[0]
                auto[0] += 1
            if isinstance(first, int):
                if first >= len(A):
                    raise AbsRaise('IndexError', ('Replacement index out of range',), self.where())
                v = A[first]
            else:
                if first not in kws:
                    raise AbsRaise('KeyError', (first,), self.where())
                v = kws[first]
            for isattr, x in rest:
                v = self.getattr(v, x) if isattr else self.getitem(v, x)
            if spec and '{' in spec:
                spec = self.fmtstr(spec, A, kws, auto)
            out += self.fmtval(v, spec or '', conv)
        return out

    def fmtval(self, x, spec, conv=None):
        from .aev import AbsRaise, Arr, Obj
        from .field import Num
        if conv == 'r' and isinstance(x, str):
            x = repr(x)
        if isinstance(x, (str, int)) and not isinstance(x, bool):
            try:
                return format(x, spec)
            except ValueError as e:
                raise AbsRaise('ValueError', (str(e),), self.where())
        if isinstance(x, Num) and spec:
            return self.spec(x, spec)
        if spec and (x is None or isinstance(x, (list, dict, tuple, set, Obj)) or isinstance(x, Arr) and x.shape != ()):
            raise AbsRaise('TypeError', ('format spec',), self.where())
        return self.text(x)

    def file(self, name, mode):
        """a text file kept in self.files"""
        from .aev import Ref, AbsRaise
        if mode[:1] in 'wax':
            if mode[0] != 'a':
                self.files[name] = ''

            def write(ev, A, k):
                if not isinstance(A[0], str):
                    ev.unk('text written')
                ev.files[name] = ev.files.get(name, '') + A[0]

            def lines(ev, A, k):
                for t in ev.iterate(A[0]):
                    write(ev, [t], {})
            return Ref('ns', {'write': Ref('py', write), 'writelines': Ref('py', lines), 'name': name,
                              'close': Ref('py', lambda ev, A, k: None), 'flush': Ref('py', lambda ev, A, k: None)})
        if name not in self.files:
            raise AbsRaise('FileNotFoundError', (name,), self.where())
        ls = self.files[name].splitlines(True)
        pos = [0]

        def rest(ev, A, k):
            r = ls[pos[0]:]
            pos[0] = len(ls)
            return r

        def one(ev, A, k):
            r = ''.join(ls[pos[0]:pos[0] + 1])
            pos[0] += 1
            return r
        return Ref('ns', {'read': Ref('py', lambda ev, A, k: ''.join(rest(ev, A, k))), 'readlines': Ref('py', rest),
                          'readline': Ref('py', one), 'close': Ref('py', lambda ev, A, k: None), 'name': name,
                          '__iter__': Ref('py', rest)})

    def parse(self, s, nm='float'):
        """text -> number; placeholders of symbolic numbers are read back"""
        t = s.strip()
        m = _re.fullmatch(r'‹([0-9a-fA-F]+)\.([0-9a-fA-F]+)›', t)
        if m:
            re_, im = int(m.group(1), 16), int(m.group(2), 16)
            for v in list(self.F.syms.values()):
                if v.fp == (re_, im):
                    return v
            return Num(re_, im)
        if nm == 'complex':
            return self.F.num(complex(t))
        v = float(t)
        if v in (float('inf'), float('-inf')) or v != v:
            return self.F.num(v)
        return self.F.num(Fraction(t))

    def sort(self, xs, kws=None):
        import functools
        kws = kws or {}
        key = kws.get('key')
        xs = list(xs)
        ks = [self.apply(key, [x], {}) for x in xs] if key else xs
        def c(i, j):
            if self.cmp(ast.Lt, ks[i], ks[j]):
                return -1
            return 1 if self.cmp(ast.Lt, ks[j], ks[i]) else 0
        ix = sorted(range(len(xs)), key=functools.cmp_to_key(c))
        if kws.get('reverse') and self.truth(kws['reverse']):
            ix = sorted(range(len(xs)), key=functools.cmp_to_key(lambda i, j: c(j, i)))
        return [xs[i] for i in ix]

    # ------------------------------------------- methods of builtin types
    def callmeth(self, r, m, A, kws):
        from .aev import Obj, Ref, Arr, Opaque, AbsRaise
        if isinstance(r, str):
            if m == 'join':
                xs = self.iterate(A[0])
                for x in xs:
                    if not isinstance(x, str):
                        if isinstance(x, Opaque):
                            return Opaque('text')
                        raise AbsRaise('TypeError', ('sequence item: expected str instance',), self.where())
                return r.join(xs)
            if m == 'format':
                return self.fmtstr(r, A, kws, [0])
            if any(isinstance(x, Opaque) for x in A):
                return Opaque('text')
            try:
                v = getattr(r, m)(*A, **kws)
            except (ValueError, TypeError, IndexError) as e:
                raise AbsRaise(type(e).__name__, (str(e),), self.where())
            return v
        if isinstance(r, list):
            if m == 'append':
                r.append(A[0])
            elif m == 'extend':
                r.extend(self.iterate(A[0]))
            elif m == 'insert':
                r.insert(self.toint(A[0]), A[1])
            elif m == 'pop':
                k = self.toint(A[0]) if A else -1
                if not -len(r) <= k < len(r) or not r:
                    raise AbsRaise('IndexError', ('pop index out of range',), self.where())
                return r.pop(k)
            elif m in ('index', 'remove', 'count'):
                hits = [k for k, x in enumerate(r) if self.eqb(x, A[0])]
                if m == 'count':
                    return len(hits)
                if len(A) > 1:
                    hits = [k for k in hits if k >= self.toint(A[1])]
                if not hits:
                    raise AbsRaise('ValueError', (f'{A[0]!r} is not in list',), self.where())
                if m == 'index':
                    return hits[0]
                del r[hits[0]]
            elif m == 'copy':
                return list(r)
            elif m == 'sort':
                r[:] = self.sort(r, kws)
            elif m == 'reverse':
                r.reverse()
            elif m == 'clear':
                r.clear()
            else:
                self.unk(f'list.{m}')
            return None
        if isinstance(r, tuple):
            if m == 'index':
                hits = [k for k, x in enumerate(r) if self.eqb(x, A[0])]
                if not hits:
                    raise AbsRaise('ValueError', ('not in tuple',), self.where())
                return hits[0]
            if m == 'count':
                return sum(1 for x in r if self.eqb(x, A[0]))
        if isinstance(r, dict):
            if m == 'items':
                return [(k, v) for k, v in r.items()]
            if m == 'keys':
                return DictKeys(r)
            if m == 'values':
                return list(r.values())
            if m in ('get', 'pop', 'setdefault') and isinstance(A[0], Opaque):
                return Opaque('dict item')
            if m == 'get':
                return r.get(self.hashable(A[0]), A[1] if len(A) > 1 else kws.get('default'))
            if m == 'pop':
                if A[0] in r:
                    return r.pop(A[0])
                if len(A) > 1:
                    return A[1]
                raise AbsRaise('KeyError', (A[0],), self.where())
            if m == 'popitem':
                if not r:
                    raise AbsRaise('KeyError', (), self.where())
                return r.popitem()
            if m == 'setdefault':
                return r.setdefault(self.hashable(A[0]), A[1] if len(A) > 1 else None)
            if m == 'update':
                if A:
                    r.update(self.callbuiltin('dict', A, {}))
                r.update(kws)
                return None
            if m == 'copy':
                return dict(r)
            if m == 'clear':
                r.clear()
                return None
        if isinstance(r, set):
            if m == 'add':
                r.add(self.hashable(A[0]))
                return None
            if m in ('discard', 'remove'):
                if A[0] not in r and m == 'remove':
                    raise AbsRaise('KeyError', (A[0],), self.where())
                r.discard(A[0])
                return None
            if m in ('union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset',
                     'isdisjoint', 'copy', 'update', 'clear'):
                return getattr(r, m)(*[set(self.iterate(a)) for a in A])
        if isinstance(r, _re.Pattern) and not all(isinstance(x, (str, int)) for x in A):
            self.unk(f'pattern.{m}')
        if isinstance(r, (_re.Match, _re.Pattern)):
            v = getattr(r, m)
            return v(*A, **kws) if callable(v) else v
        if isinstance(r, range):
            return getattr(r, m)(*A)
        self.unk(f'method {type(r).__name__}.{m}')

    def eqb(self, x, y):
        from .aev import Arr
        if isinstance(x, Arr) or isinstance(y, Arr):
            return x is y
        return self.eq(x, y)

    # --------------------------------------------------------------- numpy
    def npabs(self, v):
        F = self.F
        return self.maparr(lambda x: F.abs(F.num(x)) if self.isnum(x) else x, v)

    def arrattr(self, a, nm):
        from .aev import Arr, Ref
        F = self.F
        if nm == 'shape':
            return tuple(a.shape)
        if nm == 'ndim':
            return a.ndim
        if nm == 'size':
            return len(a.off)
        if nm == 'T':
            return self.transpose(a)
        if nm == 'real':
            return self.maparr0(lambda x: F.realpart(F.num(x)), a)
        if nm == 'imag':
            return self.maparr0(lambda x: F.imagpart(F.num(x)), a)
        if nm == 'dtype':
            return Ref('ext', 'numpy.dtype')
        if nm == 'flat':
            return a.flat
        if nm in ARRMETH:
            return Ref('amap', lambda ev, args, kws: ev.arrmeth(a, nm, args, kws))
        return None

    def maparr0(self, f, a):
        from .aev import Arr
        return Arr([f(x) for x in a.flat], a.shape)

    def arrmeth(self, a, m, A, kws):
        from .aev import Arr, AbsRaise
        if m == 'copy':
            return a.copy()
        if m in ('astype', 'view'):
            return a.copy()
        if m == 'tolist':
            return a.tolist()
        if m == 'item':
            return a.flat[0]
        if m == 'reshape':
            return self.reshape(a, A[0] if len(A) == 1 else tuple(A))
        if m in ('flatten', 'ravel'):
            return Arr(a.flat, (len(a.off),))
        if m == 'transpose':
            p = None if not A or A[0] is None else [self.toint(x) for x in
                                                    (self.iterate(A[0]) if len(A) == 1 else A)]
            return self.transpose(a, p)
        if m == 'squeeze':
            return Arr(a.buf, tuple(n for n in a.shape if n != 1), a.off)
        if m == 'fill':
            for k in a.off:
                a.buf[k] = A[0]
            return None
        if m in ('sum', 'max', 'min', 'mean', 'any', 'all', 'argsort', 'conj', 'conjugate', 'argmax', 'argmin', 'dot',
                 'prod', 'nonzero', 'diagonal', 'trace', 'repeat', 'cumsum', 'round', 'swapaxes', 'sort'):
            if m == 'sort':
                r = self.sort(a.flat)
                for k, x in zip(a.off, r):
                    a.buf[k] = x
                return None
            return self.callext('numpy.' + m, [a] + A, kws)
        self.unk(f'ndarray.{m}')

    def extattr(self, d):
        from .aev import Ref, Opaque
        last = d.split('.')[-1]
        if d in ('numpy.pi', 'math.pi', 'scipy.pi', 'scipy.constants.pi'):
            return self.F.pi
        if d in ('numpy.inf', 'numpy.Inf', 'math.inf', 'numpy.Infinity', 'numpy.PINF'):
            return PINF
        if d in ('numpy.nan', 'math.nan', 'numpy.NaN'):
            return NAN
        if d == 'numpy.newaxis':
            return None
        if d in ('numpy.e', 'math.e'):
            return self.F.exp(self.F.num(1))
        if d == 'scipy.constants.c' or d == 'scipy.constants.speed_of_light':
            return self.F.num(299792458)
        if d == 'scipy.constants.mu_0':
            return self.F.sym(d, pos='+')
        if d == 'scipy.constants.epsilon_0':
            return self.F.inv(self.F.mul(self.F.num(299792458 ** 2), self.F.sym('scipy.constants.mu_0', pos='+')))
        if self.level is not None and d in ('logging._nameToLevel', 'logging._levelToName'):
            return dict(self.LEVELS if d.endswith('nameToLevel') else self.LEVELNAMES)
        if self.level is not None and d in {f'logging.{x}' for x in self.LEVELS}:
            return self.LEVELS[d.split('.')[1]]
        if d in self.ext and not callable(self.ext[d]):
            return self.ext[d]
        if d in ('sys.stdout', 'sys.stderr', 'os.environ', 'os.sep', 'os.linesep'):
            return Opaque(d)
        return Ref('ext', d)

    def evaltext(self, text, glob, loc, literal=False):
        """an expression given as text, in the scopes given"""
        from .aev import AbsRaise, Frame, Ref
        try:
            e = ast.parse(text.strip(), mode='eval').body
        except (SyntaxError, ValueError):
            raise AbsRaise('SyntaxError', (text,), self.where())
        if literal:
            for x in ast.walk(e):
                if isinstance(x, (ast.Name, ast.Call, ast.Attribute, ast.Subscript, ast.Lambda)):
                    raise AbsRaise('ValueError', ('malformed node or string',), self.where())
        old, oldn = self.fr, self.node
        if isinstance(glob, Ref) and glob.kind == 'globals':
            fr = Frame(None, None, glob.x)
        elif isinstance(glob, dict):
            fr = Frame(None, None, None)
            fr.vars = glob
        elif glob is None:
            fr = Frame(None, old, old.mod)
        else:
            self.unk('eval in an unknown scope')
        if loc is not None:
            if not isinstance(loc, dict):
                self.unk('eval in an unknown scope')
            fr = Frame(None, fr, fr.mod)
            fr.vars = loc
        self.fr = fr
        try:
            return self.ev(e)
        finally:
            self.fr, self.node = old, oldn

    def callext(self, d, A, kws):
        from .aev import Obj, Ref, Arr, Opaque, AbsRaise, prod
        if d in self.ext:
            return self.ext[d](self, A, kws)
        parts = d.split('.')
        if parts[0] in ('numpy', 'math', 'cmath', 'scipy', 'np'):
            return self.numpy(parts, A, kws)
        if d == 'copy.copy':
            return self.copyval(A[0], False)
        if d == 'copy.deepcopy':
            return self.copyval(A[0], True, {})
        if d == 'ast.literal_eval' and A and isinstance(A[0], str):
            return self.evaltext(A[0], {}, None, literal=True)
        if parts[0] == 're':
            if all(isinstance(x, (str, int)) or isinstance(x, Ref) for x in A):
                args = [x if isinstance(x, (str, int)) else None for x in A]
                if parts[-1] == 'escape' or parts[-1] == 'compile':
                    return getattr(_re, parts[-1])(*args)
                if None not in args:
                    try:
                        return getattr(_re, parts[-1])(*args, **{k: v for k, v in kws.items()
                                                                 if isinstance(v, (int, str))})
                    except _re.error:
                        self.unk('re')
            self.unk(f'{d}')
        if parts[0] in ('warnings', 'logging', 'time', 'pprint'):
            return Opaque(d)
        if d == 'functools.reduce':
            xs = self.iterate(A[1])
            acc = A[2] if len(A) > 2 else xs.pop(0)
            for x in xs:
                acc = self.apply(A[0], [acc, x], {})
            return acc
        if d == 'inspect.signature':
            f = A[0]
            names = None
            if isinstance(f, Ref) and f.kind == 'py':
                names = f.cls
            elif isinstance(f, Ref) and f.kind in ('func', 'method') and not isinstance(f.x, str):
                a = f.x.node.args
                if not (a.vararg or a.kwarg):
                    names = [q.arg for q in a.posonlyargs + a.args + a.kwonlyargs]
                    if f.kind == 'method':
                        names = names[1:]
            if names is None:
                self.unk('inspect.signature')
            return Ref('ns', {'parameters': {q: Ref('ns', {'name': q}) for q in names}})
        if d == 'functools.partial':
            f, a0, k0 = A[0], A[1:], dict(kws)
            return Ref('py', lambda ev, a, k: ev.apply(f, a0 + a, {**k0, **k}))
        if d.startswith('itertools.'):
            n = parts[-1]
            if n == 'product':
                rep = self.toint(kws.get('repeat', 1))
                return [tuple(t) for t in itertools.product(*[self.iterate(x) for x in A], repeat=rep)]
            if n == 'chain':
                return [y for x in A for y in self.iterate(x)]
            if n in ('combinations', 'permutations'):
                return [tuple(t) for t in getattr(itertools, n)(self.iterate(A[0]), *[self.toint(x) for x in A[1:]])]
            if n == 'repeat' and len(A) > 1:
                return [A[0]] * self.toint(A[1])
            if n == 'count':
                s = self.toint(A[0]) if A else 0
                return list(range(s, s + 200))
        if d.startswith('itertools.chain.from_iterable'):
            return [y for x in self.iterate(A[0]) for y in self.iterate(x)]
        if d.startswith('operator.'):
            op = {'add': ast.Add, 'mul': ast.Mult, 'sub': ast.Sub, 'truediv': ast.Div, 'matmul': ast.MatMult,
                  'pow': ast.Pow}.get(parts[-1])
            if op:
                return self.arith(op, A[0], A[1])
            if parts[-1] == 'itemgetter':
                ks = A
                return Ref('py', lambda ev, a, k: ev.getitem(a[0], ks[0]) if len(ks) == 1
                           else tuple(ev.getitem(a[0], x) for x in ks))
        if d.startswith('collections.'):
            if parts[-1] == 'OrderedDict':
                return self.callbuiltin('dict', A, kws)
        if d in ('os.path.isfile', 'os.path.exists'):
            return Opaque(d)
        if parts[0] == 'os' and all(isinstance(x, str) for x in A) and parts[-1] in (
                'join', 'basename', 'dirname', 'splitext'):
            import os
            return getattr(os.path, parts[-1])(*A)
        if d == 'types.SimpleNamespace':
            return Opaque(d)
        self.unk(f'external {d}')

    def copyval(self, v, deep, memo=None):
        from .aev import Obj, Arr, Ref
        memo = {} if memo is None else memo
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, Obj):
            m = v.cls.find('__deepcopy__' if deep else '__copy__')
            if m:
                r = self.callfunc(m, v, [{}] if deep else [], {}, v.cls)
            else:
                r = Obj(v.cls)
                memo[id(v)] = r
                for k, x in v.attrs.items():
                    r.attrs[k] = self.copyval(x, deep, memo) if deep else x
            memo[id(v)] = r
            return r
        if isinstance(v, Arr):
            r = v.copy()
            memo[id(v)] = r
            return r
        if isinstance(v, list):
            r = []
            memo[id(v)] = r
            r.extend(self.copyval(x, True, memo) if deep else x for x in v)
            return r
        if isinstance(v, dict):
            r = {}
            memo[id(v)] = r
            for k, x in v.items():
                r[k] = self.copyval(x, True, memo) if deep else x
            return r
        if isinstance(v, tuple):
            return tuple(self.copyval(x, True, memo) if deep else x for x in v)
        if isinstance(v, set):
            return set(v)
        if deep and isinstance(v, Ref) and isinstance(v.recv, (Obj, list, dict, Arr)):
            # a bound method: of the copied object
            return Ref(v.kind, v.x, recv=self.copyval(v.recv, True, memo), env=v.env, cls=v.cls)
        return v

    def numpy(self, parts, A, kws):
        from .aev import Obj, Ref, Arr, Opaque, AbsRaise, prod
        F = self.F
        n = parts[-1]
        mod = parts[0]
        lin = 'linalg' in parts
        if any(isinstance(x, Opaque) for x in A) and n not in ('array', 'asarray', 'linspace'):
            return Opaque(n)
        axis = kws.get('axis')

        def U(f):
            """elementwise function of one argument"""
            def g(x):
                if isinstance(x, Opaque):
                    return x
                if isinstance(x, bool):
                    x = int(x)
                if not self.isnum(x):
                    raise AbsRaise('TypeError', ('ufunc',), self.where())
                return f(F.num(x))
            return self.maparr(g, A[0])
        if lin:
            if n == 'inv':
                return self.inverse(A[0])
            if n == 'pinv':
                a = self.asarr(A[0])
                return self.inverse(a)
            if n == 'solve':
                return self.solve(self.asarr(A[0]), self.asarr(A[1]))
            if n == 'det':
                return self.det(self.asarr(A[0]))
            if n == 'LinAlgError':
                return ('exc', 'LinAlgError', tuple(A))
            if n == 'norm':
                fl = self.asarr(A[0]).flat
                s = F.num(0)
                for x in fl:
                    x = F.num(x)
                    s = F.add(s, F.mul(x, F.conj(x)))
                s.pos = s.pos or '0+'
                return F.sqrt(s)
            if n == 'cond' or n == 'matrix_rank':
                return Opaque(n)
            if n == 'matrix_power':
                k = self.toint(A[1])
                a = self.asarr(A[0])
                r = a
                if k < 0:
                    a = self.inverse(a)
                    k, r = -k, a
                for _ in range(k - 1):
                    r = self.matmul(r, a)
                return r
            self.unk(f'linalg.{n}')
        if n in ('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'atleast_1d', 'atleast_2d', 'atleast_3d',
                 'matrix', 'asmatrix', 'asfarray', 'copy'):
            a = self.asarr(A[0], copy=True) if n in ('array', 'copy') or not isinstance(A[0], Arr) else A[0]
            if a is A[0] and n == 'array':
                a = a.copy()
            if not isinstance(A[0], Arr):
                a = Arr(list(a.flat), a.shape)
            if n == 'atleast_1d' and a.ndim == 0:
                a = Arr(a.buf, (1,), a.off)
            if n == 'atleast_2d' and a.ndim < 2:
                a = Arr(a.buf, (1,) * (2 - a.ndim) + a.shape, a.off)
            dt = kws.get('dtype', A[1] if len(A) > 1 else None)
            if dt is not None and a.off and any(isinstance(x, (str, Obj, dict)) or x is None for x in a.flat):
                if all(isinstance(x, str) for x in a.flat):
                    return Arr([self.callbuiltin('float', [x], {}) for x in a.flat], a.shape)
                raise AbsRaise('TypeError', ('cannot convert to number',), self.where())
            if isinstance(dt, Ref) and str(dt.x) in ('float', 'numpy.float64') and \
                    any(isinstance(x, Num) and not x.real for x in a.flat):
                raise AbsRaise('TypeError', ('complex to float',), self.where())
            if isinstance(dt, Ref) and str(dt.x).split('.')[-1] in ('float', 'complex', 'float64', 'complex128'):
                return Arr([F.num(x) if self.isnum(x) else x for x in a.flat], a.shape)
            return a
        if n in ('zeros', 'ones', 'empty', 'full'):
            sh = A[0]
            sh = (self.toint(sh),) if not isinstance(sh, (tuple, list, Arr)) else tuple(self.toint(x) for x in
                                                                                       self.iterate(sh))
            if any(x < 0 for x in sh):
                raise AbsRaise('ValueError', ('negative dimensions',), self.where())
            v = {'zeros': F.num(0), 'ones': F.num(1), 'empty': None}.get(n)
            if n == 'full':
                v = A[1]
            if n == 'empty':
                return Arr([Opaque('uninitialised') for _ in range(prod(sh))], sh)
            dt = kws.get('dtype', A[1] if len(A) > 1 and n != 'full' else None)
            if isinstance(dt, Ref) and str(dt.x).endswith('bool'):
                v = n == 'ones'
            elif isinstance(dt, Ref) and str(dt.x) == 'int':
                v = int(n == 'ones')
            return Arr([v] * prod(sh), sh)
        if n in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
            a = self.asarr(A[0])
            v = {'zeros_like': F.num(0), 'ones_like': F.num(1), 'empty_like': Opaque('uninitialised')}.get(n)
            if n == 'full_like':
                v = A[1]
            return Arr([v] * len(a.off), a.shape)
        if n in ('eye', 'identity'):
            r = self.toint(A[0])
            c = self.toint(A[1]) if len(A) > 1 and n == 'eye' else r
            k = self.toint(kws.get('k', 0))
            return Arr([F.num(int(j - i == k)) for i in range(r) for j in range(c)], (r, c))
        if n in ('diag', 'diagflat'):
            a = self.asarr(A[0])
            if a.ndim == 1:
                m = a.shape[0]
                fl = a.flat
                return Arr([fl[i] if i == j else F.num(0) for i in range(m) for j in range(m)], (m, m))
            if a.ndim == 2:
                return Arr([a.flat[i * a.shape[1] + i] for i in range(min(a.shape))], (min(a.shape),))
            raise AbsRaise('ValueError', ('Input must be 1- or 2-d',), self.where())
        if n in ('diagonal',):
            a = self.asarr(A[0])
            return Arr([a.flat[i * a.shape[1] + i] for i in range(min(a.shape))], (min(a.shape),))
        if n == 'trace':
            a = self.asarr(A[0])
            s = F.num(0)
            for i in range(min(a.shape)):
                s = self.add(s, a.flat[i * a.shape[1] + i])
            return s
        if n in ('dot', 'matmul', 'inner', 'vdot'):
            a, b = self.asarr(A[0]), self.asarr(A[1])
            if a.ndim == 0 or b.ndim == 0:
                return self.arith(ast.Mult, A[0], A[1])
            return self.matmul(a, b)
        if n == 'tensordot':
            ax = kws.get('axes', A[2] if len(A) > 2 else 2)
            return self.tensordot(self.asarr(A[0]), self.asarr(A[1]), ax)
        if n == 'einsum':
            return self.einsum(A[0], [self.asarr(x) for x in A[1:]])
        if n == 'outer':
            a, b = self.asarr(A[0]), self.asarr(A[1])
            return Arr([self.mul(x, y) for x in a.flat for y in b.flat], (len(a.off), len(b.off)))
        if n == 'kron':
            a, b = self.asarr(A[0]), self.asarr(A[1])
            if a.ndim == b.ndim == 2:
                out = []
                for i in range(a.shape[0]):
                    for k in range(b.shape[0]):
                        for j in range(a.shape[1]):
                            for l in range(b.shape[1]):
                                out.append(self.mul(a.flat[i * a.shape[1] + j], b.flat[k * b.shape[1] + l]))
                return Arr(out, (a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]))
        if n in ('transpose', 'swapaxes', 'moveaxis'):
            a = self.asarr(A[0])
            if n == 'transpose':
                p = kws.get('axes', A[1] if len(A) > 1 else None)
                return self.transpose(a, None if p is None else [self.toint(x) for x in self.iterate(p)])
            i, j = self.toint(A[1]) % a.ndim, self.toint(A[2]) % a.ndim
            p = list(range(a.ndim))
            if n == 'swapaxes':
                p[i], p[j] = p[j], p[i]
            else:
                p.remove(i)
                p.insert(j, i)
            return self.transpose(a, p)
        if n == 'squeeze':
            a = self.asarr(A[0])
            return Arr(a.buf, tuple(x for x in a.shape if x != 1), a.off)
        if n == 'expand_dims':
            a = self.asarr(A[0])
            k = self.toint(A[1])
            k = k % (a.ndim + 1)
            return Arr(a.buf, a.shape[:k] + (1,) + a.shape[k:], a.off)
        if n in ('reshape', 'ravel'):
            a = self.asarr(A[0])
            return self.reshape(a, A[1] if n == 'reshape' else -1)
        if n == 'shape':
            return tuple(self.asarr(A[0]).shape)
        if n == 'ndim':
            return self.asarr(A[0]).ndim
        if n == 'size':
            return len(self.asarr(A[0]).off)
        if n in ('hstack', 'vstack', 'concatenate', 'append', 'stack', 'column_stack', 'block', 'dstack', 'c_', 'r_'):
            if n == 'append':
                ax = kws.get('axis', A[2] if len(A) > 2 else None)
                if ax is None:
                    return Arr(self.asarr(A[0]).flat + self.asarr(A[1]).flat,
                               (len(self.asarr(A[0]).off) + len(self.asarr(A[1]).off),))
                return self.concat([A[0], A[1]], self.toint(ax))
            if n == 'block':
                rows = [self.concat([self.at2(x) for x in self.iterate(r)], 1) for r in self.iterate(A[0])]
                return self.concat(rows, 0)
            ps = [self.asarr(x) for x in self.iterate(A[0])]
            if n == 'hstack':
                return self.concat(ps, 0 if ps[0].ndim == 1 else 1)
            if n == 'vstack':
                return self.concat([self.at2(p) for p in ps], 0)
            if n == 'column_stack':
                return self.concat([Arr(p.flat, (len(p.off), 1)) if p.ndim == 1 else p for p in ps], 1)
            if n == 'stack':
                return self.stack(ps, self.toint(kws.get('axis', A[1] if len(A) > 1 else 0)))
            return self.concat(ps, self.toint(kws.get('axis', A[1] if len(A) > 1 else 0)))
        if n in ('delete', 'insert'):
            a = self.asarr(A[0])
            ax = kws.get('axis', A[2] if n == 'delete' and len(A) > 2 else None)
            if n == 'delete':
                ks = A[1]
                if ax is None:
                    a = Arr(a.flat, (len(a.off),))
                    ax = 0
                ax = self.toint(ax) % a.ndim
                m = a.shape[ax]
                drop = {self.toint(x) % m for x in (self.iterate(ks) if isinstance(ks, (list, tuple, Arr, range)) else [ks])}
                keep = [i for i in range(m) if i not in drop]
                return self.getitem(a, tuple([slice(None)] * ax + [keep]))
        if n in ('real', 'imag', 'conj', 'conjugate', 'abs', 'absolute', 'sqrt', 'exp', 'log', 'angle', 'cosh', 'sinh',
                 'tanh', 'cos', 'sin', 'tan', 'fabs', 'square', 'log10', 'log2', 'deg2rad', 'rad2deg', 'radians', 'degrees', 'reciprocal',
                 'arctan', 'arccos', 'arcsin', 'arccosh', 'arcsinh', 'arctanh', 'atan', 'acos', 'asin', 'atanh', 'acosh', 'asinh',
                 'sign', 'negative', 'expm1', 'log1p', 'phase', 'real_if_close'):
            fn = {
                'real': F.realpart, 'imag': F.imagpart, 'conj': F.conj, 'conjugate': F.conj, 'abs': F.abs,
                'absolute': F.abs, 'fabs': F.abs, 'sqrt': F.sqrt, 'exp': F.exp, 'log': F.log, 'phase': F.angle,
                'cosh': F.cosh, 'sinh': F.sinh, 'cos': F.cos, 'sin': F.sin,
                'square': lambda x: F.mul(x, x), 'negative': F.neg, 'real_if_close': lambda x: x,
                'tanh': lambda x: self.safe_div(F.sinh(x), F.cosh(x)),
                'tan': lambda x: self.safe_div(F.sin(x), F.cos(x)),
                'log10': lambda x: F.div(F.log(x), F.log(F.num(10))),
                'log2': lambda x: F.div(F.log(x), F.log(F.num(2))),
                'deg2rad': lambda x: F.div(F.mul(x, F.pi), F.num(180)),
                'radians': lambda x: F.div(F.mul(x, F.pi), F.num(180)),
                'rad2deg': lambda x: F.div(F.mul(x, F.num(180)), F.pi),
                'degrees': lambda x: F.div(F.mul(x, F.num(180)), F.pi),
                'reciprocal': lambda x: self.safe_div(F.num(1), x),
                'expm1': lambda x: F.sub(F.exp(x), F.num(1)),
                'log1p': lambda x: F.log(F.add(F.num(1), x)),
                'sign': lambda x: F.num(1 if x.pos == '+' else -1) if isinstance(x, Num) and x.pos in ('+', '-')
                else F.num(0) if isinstance(x, Num) and x.fp == (0, 0)
                else F.num(self.sign(x, F.num(0), x)) if isinstance(x, Num) and x.real else F.fun('sign', x, real=True),
            }.get(n)
            if n == 'angle':
                r = U(F.angle)
                deg = kws.get('deg', A[1] if len(A) > 1 else False)
                if self.truth(deg):
                    r = self.maparr(lambda x: F.div(F.mul(x, F.num(180)), F.pi), r)
                return r
            if fn is None:
                fn = lambda x, n=n: F.fun(n.replace('arc', 'a'), x, real=isinstance(x, Num) and x.real)
            return U(fn)
        if n in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'float_power', 'mod', 'remainder', 'floor_divide'):
            op = {'add': ast.Add, 'subtract': ast.Sub, 'multiply': ast.Mult, 'divide': ast.Div, 'true_divide': ast.Div,
                  'power': ast.Pow, 'float_power': ast.Pow, 'mod': ast.Mod, 'remainder': ast.Mod,
                  'floor_divide': ast.FloorDiv}[n]
            return self.binop_arr(lambda x, y: self.scalar(op, x, y, True), A[0], A[1])
        if n in ('equal', 'not_equal', 'less', 'greater', 'less_equal', 'greater_equal'):
            op = {'equal': ast.Eq, 'not_equal': ast.NotEq, 'less': ast.Lt, 'greater': ast.Gt, 'less_equal': ast.LtE,
                  'greater_equal': ast.GtE}[n]
            return self.binop_arr(lambda x, y: self.cmp(op, x, y), A[0], A[1])
        if n in ('logical_and', 'logical_or'):
            f = (lambda x, y: self.truth(x) and self.truth(y)) if n.endswith('and') else \
                (lambda x, y: self.truth(x) or self.truth(y))
            return self.binop_arr(f, A[0], A[1])
        if n == 'logical_not':
            return self.maparr(lambda x: not self.truth(x), A[0])
        if n in ('hypot',):
            return self.binop_arr(lambda x, y: F.abs(F.add(F.num(x), F.mul(F.num(1j), F.num(y))))
                                  if F.num(x).real and F.num(y).real else
                                  F.sqrt(F.add(F.mul(F.num(x), F.num(x)), F.mul(F.num(y), F.num(y)))), A[0], A[1])
        if n in ('arctan2', 'atan2'):
            return self.binop_arr(lambda x, y: F.angle(F.add(F.num(y), F.mul(F.num(1j), F.num(x)))), A[0], A[1])
        if n in ('maximum', 'minimum', 'fmax', 'fmin'):
            op = ast.Gt if 'max' in n else ast.Lt
            return self.binop_arr(lambda x, y: x if self.cmp(op, x, y) else y, A[0], A[1])
        if n in ('isinf', 'isnan', 'isfinite', 'isposinf', 'isneginf', 'iscomplex', 'isreal', 'iscomplexobj',
                 'isrealobj', 'isscalar'):
            if n == 'isscalar':
                return self.isnum(A[0]) or isinstance(A[0], str)
            if n in ('iscomplexobj', 'isrealobj'):
                c = any(isinstance(x, Num) and not x.real for x in self.asarr(A[0]).flat)
                return c == (n == 'iscomplexobj')
            f = {'isinf': lambda x: isinstance(x, Inf), 'isnan': lambda x: isinstance(x, Nan),
                 'isfinite': lambda x: not isinstance(x, (Inf, Nan)),
                 'isposinf': lambda x: isinstance(x, Inf) and x.s > 0,
                 'isneginf': lambda x: isinstance(x, Inf) and x.s < 0,
                 'iscomplex': lambda x: isinstance(x, Num) and not x.real,
                 'isreal': lambda x: not (isinstance(x, Num) and not x.real)}[n]
            v = A[0]
            if isinstance(v, (str, dict)) or v is None:
                raise AbsRaise('TypeError', ('ufunc',), self.where())
            return self.maparr(lambda x: f(F.num(x)) if self.isnum(x) else False, v)
        if n in ('isclose', 'allclose', 'array_equal', 'array_equiv'):
            a, b = self.asarr(A[0]), self.asarr(A[1])
            if n == 'array_equal':
                return a.shape == b.shape and all(self.eq(x, y) for x, y in zip(a.flat, b.flat))
            r = self.binop_arr(lambda x, y: self.eq(x, y), a, b)
            if n == 'isclose':
                return r
            return all(self.asarr(r).flat)
        if n in ('sum', 'prod', 'mean', 'max', 'min', 'amax', 'amin', 'any', 'all', 'nansum', 'nanmax', 'nanmin', 'ptp',
                 'argmax', 'argmin', 'cumsum', 'cumprod', 'count_nonzero', 'nanargmax', 'nanargmin', 'median', 'std', 'var', 'fsum', 'average'):
            a = self.asarr(A[0])
            if axis is None and len(A) > 1:
                axis = A[1]
            f = self.reducer(n)
            if f is None:
                self.unk(f'numpy.{n}')
            if axis is None:
                if n in ('cumsum', 'cumprod'):
                    a = Arr(a.flat, (len(a.off),))
                    axis = 0
                else:
                    return f(a.flat)
            ax = self.toint(axis) % max(a.ndim, 1)
            perm = [k for k in range(a.ndim) if k != ax] + [ax]
            t = self.transpose(a, perm)
            m = a.shape[ax]
            fl = t.flat
            rs = [f(fl[i * m:(i + 1) * m]) for i in range(len(fl) // m if m else 0)]
            if n in ('cumsum', 'cumprod'):
                r = Arr([x for q in rs for x in q], t.shape)
                inv = [perm.index(k) for k in range(a.ndim)]
                return self.transpose(r, inv).copy()
            r = Arr(rs, t.shape[:-1])
            if kws.get('keepdims'):
                return Arr(rs, tuple(1 if k == ax else s for k, s in enumerate(a.shape)))
            return self.unwrap(r)
        if n == 'where':
            c = self.asarr(A[0])
            if len(A) == 1:
                pos = [ix for ix, x in zip(itertools.product(*[range(k) for k in c.shape]), c.flat) if self.truth(x)]
                return tuple(Arr([p[d] for p in pos], (len(pos),)) for d in range(max(c.ndim, 1)))
            a, b = self.asarr(A[1]), self.asarr(A[2])
            sh = self.bshape(self.bshape(c.shape, a.shape), b.shape)
            return self.unwrap(Arr([x if self.truth(t) else y for t, x, y in
                                    zip(self.spread(c, sh), self.spread(a, sh), self.spread(b, sh))], sh))
        if n in ('nonzero', 'argwhere', 'flatnonzero'):
            c = self.asarr(A[0])
            pos = [ix for ix, x in zip(itertools.product(*[range(k) for k in c.shape]), c.flat) if self.truth(x)]
            if n == 'argwhere':
                return self.asarr([list(p) for p in pos]) if pos else Arr([], (0, c.ndim))
            if n == 'flatnonzero':
                return Arr([k for k, x in enumerate(c.flat) if self.truth(x)], (len(pos),))
            return tuple(Arr([p[d] for p in pos], (len(pos),)) for d in range(c.ndim))
        if n in ('argsort', 'sort', 'unique', 'flip', 'fliplr', 'flipud', 'lexsort', 'searchsorted'):
            a = self.asarr(A[0])
            if n == 'argsort' and a.ndim == 1:
                fl = a.flat
                order = self.sort([(x, k) for k, x in enumerate(fl)])
                return Arr([k for _, k in order], (len(fl),))
            if n == 'sort' and a.ndim == 1:
                return Arr(self.sort(a.flat), a.shape)
            if n == 'unique' and not kws:
                out = []
                for x in self.sort(a.flat):
                    if not out or not self.eq(out[-1], x):
                        out.append(x)
                return Arr(out, (len(out),))
            if n in ('flip', 'flipud', 'fliplr'):
                ax = 1 if n == 'fliplr' else axis
                if n == 'flip' and len(A) > 1:
                    ax = A[1]
                if ax is None and n == 'flipud' or ax is not None or a.ndim == 1:
                    k = self.toint(ax or 0) % a.ndim
                    return self.getitem(a, tuple([slice(None)] * k + [slice(None, None, -1)]))
        if n == 'diff':
            a = self.asarr(A[0])
            k = (self.toint(axis) if axis is not None else -1) % max(a.ndim, 1)
            if a.ndim == 0:
                raise AbsRaise('ValueError', ('diff requires input that is at least one dimensional',), self.where())
            pre = [slice(None)] * k
            return self.binop_arr(lambda x, y: self.scalar(ast.Sub, x, y, True),
                                  self.getitem(a, tuple(pre + [slice(1, None)])),
                                  self.getitem(a, tuple(pre + [slice(None, -1)])))
        if n in ('linspace', 'arange', 'logspace', 'geomspace'):
            if n == 'arange':
                c = [F.num(x) for x in A]
                if all(isinstance(x, Num) and x.c is not None for x in c):
                    v = [x.c for x in c]
                    s, e, st = (0, v[0], 1) if len(v) == 1 else (v[0], v[1], v[2] if len(v) > 2 else 1)
                    out = []
                    while s < e and len(out) < 500:
                        out.append(int(s) if all(isinstance(x, int) for x in A) else F.num(Fraction(s)))
                        s += st
                    return Arr(out, (len(out),))
                self.unk('arange')
            if n == 'linspace':
                m = kws.get('num', A[2] if len(A) > 2 else 50)
                a, b = A[0], A[1]
                if isinstance(m, Opaque) or isinstance(m, Num) and m.c is None:
                    # any number of points: the two ends and a generic one
                    t = F.sym('linspace', pos='+')
                    return Arr([F.num(a), self.add(a, self.mul(t, self.scalar(ast.Sub, b, a, True))), F.num(b)], (3,))
                m = self.count(m)
                end = kws.get('endpoint', True)
                out = []
                for k in range(m):
                    q = Fraction(k, (m - 1 if end else m)) if m > 1 else Fraction(0)
                    out.append(self.add(a, self.mul(F.num(q), self.scalar(ast.Sub, b, a, True))))
                return Arr(out, (m,))
            self.unk(n)
        if n in ('unwrap', 'nan_to_num', 'around', 'round', 'round_', 'floor', 'ceil', 'rint', 'trunc', 'fix'):
            if n == 'unwrap':
                return self.asarr(A[0]).copy()
            if n == 'nan_to_num':
                return self.asarr(A[0]).copy()

            def rnd(x):
                if isinstance(x, int):
                    return x
                x = F.num(x)
                if isinstance(x, Num) and x.c is not None and n in ('floor', 'ceil', 'rint', 'trunc'):
                    import math
                    v = {'floor': math.floor, 'ceil': math.ceil, 'rint': round, 'trunc': int}[n](x.c)
                    return v if mod == 'math' else F.num(v)
                return F.fun(n, x, real=True)
            return self.maparr(rnd, A[0])
        if n in ('isin', 'in1d'):
            b = self.asarr(A[1]).flat
            return self.maparr(lambda x: any(self.eq(x, y) for y in b), A[0])
        if n in ('allclose',):
            pass
        if n in ('tile', 'repeat'):
            a = self.asarr(A[0])
            if n == 'tile':
                r = A[1] if isinstance(A[1], tuple) else tuple(self.iterate(A[1])) if isinstance(A[1], list) else (A[1],)
                r = tuple(self.toint(x) for x in r)
                k = max(a.ndim, len(r))
                r = (1,) * (k - len(r)) + r
                b = Arr(a.buf, (1,) * (k - a.ndim) + a.shape, a.off)
                for ax, m in enumerate(r):
                    b = self.concat([b] * m, ax)
                return b
            m = self.toint(A[1])
            if axis is None:
                return Arr([x for x in a.flat for _ in range(m)], (len(a.off) * m,))
            ax = self.toint(axis) % a.ndim
            return self.getitem(a, tuple([slice(None)] * ax + [[i for i in range(a.shape[ax]) for _ in range(m)]]))
        if n == 'broadcast_to':
            sh = tuple(self.toint(x) for x in A[1]) if isinstance(A[1], (tuple, list)) else (self.toint(A[1]),)
            return Arr(self.spread(self.asarr(A[0]), sh), sh)
        if n in ('ix_',):
            ls = [self.iterate(x) for x in A]
            k = len(ls)
            return tuple(Arr(list(l), tuple(len(l) if i == j else 1 for j in range(k))) for i, l in enumerate(ls))
        if n in ('float64', 'complex128', 'float', 'complex', 'double', 'int64', 'int', 'int32'):
            if isinstance(A[0], (Arr, list)):
                return self.asarr(A[0], copy=True)
            return self.callbuiltin('int' if n.startswith('int') else 'complex' if n.startswith('c') else 'float', A, {})
        if n in ('errstate', 'seterr', 'set_printoptions', 'printoptions'):
            return Opaque(n)
        if n == 'interp1d':
            return self.interp(A, kws)
        if n == 'iscomplex':
            pass
        if n in ('vectorize',):
            f = A[0]
            return Ref('py', lambda ev, a, k: ev.maparr(lambda x: ev.apply(f, [x], {}), ev.asarr(a[0])))
        if n == 'apply_along_axis':
            self.unk(n)
        if n == 'cross' or n == 'triu' or n == 'tril':
            if n != 'cross':
                a = self.asarr(A[0])
                k = self.toint(A[1] if len(A) > 1 else kws.get('k', 0))
                return Arr([x if ((j - i >= k) if n == 'triu' else (j - i <= k)) else F.num(0)
                            for (i, j), x in zip(itertools.product(range(a.shape[0]), range(a.shape[1])), a.flat)],
                           a.shape)
        self.unk(f'external {".".join(parts)}')

    def at2(self, p):
        from .aev import Arr
        p = self.asarr(p)
        return Arr(p.buf, (1,) * (2 - p.ndim) + p.shape, p.off) if p.ndim < 2 else p

    def count(self, m):
        return self.toint(m)

    def safe_div(self, a, b):
        try:
            return self.F.div(a, b)
        except ZeroDivisionError:
            return self.divzero(a, True)

    def interp(self, A, kws):
        self.unk('interp1d')

    def det(self, a):
        F = self.F
        n = a.shape[0]
        M = [[F.num(x) for x in a.flat[i * n:(i + 1) * n]] for i in range(n)]
        d = F.num(1)
        for i in range(n):
            p = next((r for r in range(i, n) if M[r][i].fp != (0, 0)), None)
            if p is None:
                return F.num(0)
            if p != i:
                M[i], M[p] = M[p], M[i]
                d = F.neg(d)
            d = F.mul(d, M[i][i])
            q = F.inv(M[i][i])
            for r in range(i + 1, n):
                k = F.mul(M[r][i], q)
                M[r] = [F.sub(x, F.mul(k, y)) for x, y in zip(M[r], M[i])]
        return d

    def reducer(self, n):
        from .aev import AbsRaise
        F = self.F

        def total(xs):
            s = F.num(0)
            for x in xs:
                s = self.add(s, int(x) if isinstance(x, bool) else x)
            return s

        def product(xs):
            s = F.num(1)
            for x in xs:
                s = self.mul(s, x)
            return s

        def arg(op):
            def g(xs):
                if not xs:
                    raise AbsRaise('ValueError', ('zero-size array',), self.where())
                b = 0
                for k, x in enumerate(xs):
                    if k and self.cmp(op, x, xs[b]):
                        b = k
                return b
            return g

        def cum(f):
            def g(xs):
                out = []
                for x in xs:
                    out.append(x if not out else f(out[-1], x))
                return out
            return g
        amax, amin = arg(ast.Gt), arg(ast.Lt)
        return {
            'sum': total, 'nansum': total, 'fsum': total, 'prod': product,
            'mean': lambda xs: F.div(total(xs), F.num(len(xs))),
            'average': lambda xs: F.div(total(xs), F.num(len(xs))),
            'max': lambda xs: xs[amax(xs)], 'amax': lambda xs: xs[amax(xs)], 'nanmax': lambda xs: xs[amax(xs)],
            'min': lambda xs: xs[amin(xs)], 'amin': lambda xs: xs[amin(xs)], 'nanmin': lambda xs: xs[amin(xs)],
            'argmax': amax, 'argmin': amin, 'nanargmax': amax, 'nanargmin': amin,
            'any': lambda xs: any(self.truth(x) for x in xs), 'all': lambda xs: all(self.truth(x) for x in xs),
            'count_nonzero': lambda xs: sum(1 for x in xs if self.truth(x)),
            'cumsum': cum(self.add), 'cumprod': cum(self.mul),
            'ptp': lambda xs: self.scalar(ast.Sub, xs[amax(xs)], xs[amin(xs)], True),
        }.get(n)

    def tensordot(self, a, b, ax):
        from .aev import Arr
        if isinstance(ax, int):
            ia, ib = list(range(a.ndim - ax, a.ndim)), list(range(ax))
        else:
            ia, ib = [([self.toint(x) for x in self.iterate(q)] if isinstance(q, (list, tuple, Arr))
                       else [self.toint(q)]) for q in ax]
        ia, ib = [i % a.ndim for i in ia], [i % b.ndim for i in ib]
        pa = [i for i in range(a.ndim) if i not in ia]
        pb = [i for i in range(b.ndim) if i not in ib]
        from .aev import prod
        ta = self.transpose(a, pa + ia).copy()
        tb = self.transpose(b, ib + pb).copy()
        m = prod([a.shape[i] for i in ia])
        ra, rb = [a.shape[i] for i in pa], [b.shape[i] for i in pb]
        A2, B2 = Arr(ta.buf, (prod(ra), m)), Arr(tb.buf, (m, prod(rb)))
        r = self.matmul(A2, B2)
        return self.unwrap(Arr(r.flat, tuple(ra + rb)))

    def einsum(self, spec, ops):
        from .aev import Arr, prod
        if '->' not in spec or '.' in spec:
            self.unk('einsum')
        ins, out = spec.replace(' ', '').split('->')
        ins = ins.split(',')
        dim = {}
        for s, o in zip(ins, ops):
            for c, d in zip(s, o.shape):
                dim[c] = d
        rest = [c for c in dim if c not in out]
        fl = [o.flat for o in ops]
        res = []
        for ix in itertools.product(*[range(dim[c]) for c in out]):
            env = dict(zip(out, ix))
            s = self.F.num(0)
            for jx in itertools.product(*[range(dim[c]) for c in rest]):
                env.update(zip(rest, jx))
                p = self.F.num(1)
                for q, o, f in zip(ins, ops, fl):
                    k = 0
                    for c, d in zip(q, o.shape):
                        k = k * d + env[c]
                    p = self.mul(p, f[k])
                s = self.add(s, p)
            res.append(s)
        return self.unwrap(Arr(res, tuple(dim[c] for c in out)))


class DictKeys(list):
    def __init__(self, d):
        super().__init__(d.keys())


def Rec(ev, pat):
    from .aev import Opaque
    return Opaque('regex')


ARRMETH = {'copy', 'astype', 'view', 'tolist', 'item', 'reshape', 'flatten', 'ravel', 'transpose', 'squeeze', 'fill',
           'sum', 'max', 'min', 'mean', 'any', 'all', 'argsort', 'conj', 'conjugate', 'argmax', 'argmin', 'dot',
           'prod', 'nonzero', 'diagonal', 'trace', 'repeat', 'cumsum', 'round', 'swapaxes', 'sort'}
NDARRAY = ARRMETH | {'shape', 'ndim', 'size', 'T', 'real', 'imag', 'dtype', 'flat', '__iter__', '__len__',
                     '__getitem__', '__setitem__', '__array__', '__call__x', '__add__'}
