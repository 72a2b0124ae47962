"""Laws: obligations on value numbers decided by the abstract evaluator."""
import ast
from .aev import Partition, Ev, Ref, Arr, Obj, Opaque, AbsRaise, Unknown, Infeasible, prod
from .field import Num, Inf, Nan, NAN, PINF, NINF, txt


def same(a, b):
    """True, False or None (not decided)"""
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return None
    if isinstance(a, Arr) or isinstance(b, Arr):
        if not isinstance(a, Arr) or not isinstance(b, Arr):
            return False
        if a.shape != b.shape:
            return False
        r = [same(x, y) for x, y in zip(a.flat, b.flat)]
        return False if False in r else None if None in r else True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        r = [same(x, y) for x, y in zip(a, b)]
        return False if False in r else None if None in r else True
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        r = [same(a[k], b[k]) for k in a]
        return False if False in r else None if None in r else True
    na, nb = number(a), number(b)
    if na is not None and nb is not None:
        return na == nb
    if type(a) is not type(b):
        return False
    if isinstance(a, (str, bool, int)) or a is None:
        return a == b
    return True if a is b else None


def number(x):
    if isinstance(x, bool):
        return None
    if isinstance(x, int):
        from fractions import Fraction
        from .field import P
        return (x % P, 0)
    if isinstance(x, Num):
        return x.fp
    if isinstance(x, (Inf, Nan)):
        return repr(x)
    return None


def diff(a, b, at=''):
    """where two values differ: text"""
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.shape != b.shape:
            return f'shape {a.shape} instead of {b.shape}{at}'
        import itertools
        for ix, x, y in zip(itertools.product(*[range(n) for n in a.shape]), a.flat, b.flat):
            if same(x, y) is False:
                return f'entry {list(ix)} is {show(x)} instead of {show(y)}{at}'
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f'{len(a)} values instead of {len(b)}{at}'
        for k, (x, y) in enumerate(zip(a, b)):
            if same(x, y) is False:
                return diff(x, y, f' at [{k}]{at}')
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f'keys {sorted(map(str, a))} instead of {sorted(map(str, b))}{at}'
        for k in a:
            if same(a[k], b[k]) is False:
                return diff(a[k], b[k], f' at [{k!r}]{at}')
    return f'{show(a)} instead of {show(b)}{at}'


def show(x):
    if isinstance(x, Arr):
        return f'an array of shape {x.shape}'
    if isinstance(x, (Num, Inf, Nan)):
        return txt(x) or 'a different expression'
    return repr(x)


def law(ck, rule, construct, func, fn, limit=120, raises=None, steps=400000, strict=True, vacuous=None):
    """decide one law.  fn(ev) returns a list of (what, got, want); raises: name
    of the exception the call has to end in.  func locates the report."""
    if func is None:
        ck.open(rule, construct, 'the construct is not there')
        return
    if getattr(ck, 'hook', None):
        return ck.hook(ck, rule, construct, func, fn, limit, steps)
    where = func.where if hasattr(func, 'where') else str(func)
    ck.saw(func)
    # vacuous: why there may be nothing to decide (noted, not counted)
    n, undec, died, lived = 0, None, None, False
    for ev, (kind, v) in Partition(ck.pkg, limit, steps).run(fn):
        cond = ''
        if ev is not None:
            parts = [f'{k} = {s[1]}' for k, s in ev.subst.items()] + list(ev.trail)
            cond = f' when {", ".join(parts)}' if parts else ''
        if kind == 'unknown':
            undec = undec or v
            continue
        if ev is not None and (ev.taint or ev.F.blurred) and (kind == 'raise' or raises or any(same(g, w) is not True for _, g, w in v)):
            undec = undec or f'depends on an unknown value{cond}'
            continue
        if kind == 'raise':
            if raises:
                if v.name == raises or raises == 'any':
                    n += 1
                    continue
                ck.bad(rule, construct, where, f'ends in {v.name} at {v.where} instead of {raises}{cond}')
                continue
            if strict and ev is not None and not ev.subst:
                died = died or (f'ends in {v.name}{tuple(map(str, v.args_))} at {v.where}', cond)
            if strict and ev is not None and not ev.subst and not ev.trail:
                ck.bad(rule, construct, where, f'ends in {v.name}{tuple(map(str, v.args_))} at {v.where}')
            continue
        if raises:
            ck.bad(rule, construct, where, f'is accepted instead of ending in {raises}{cond}')
            continue
        lived = True
        for what, got, want in v:
            r = same(got, want)
            if r is None:
                undec = undec or f'{what}: unknown value{cond}'
            elif r is False:
                ck.bad(rule, construct, where, f'{what}: {diff(got, want)}{cond}')
            else:
                n += 1
    if died and not lived and not undec:
        # every partition of the generic case ends in an error
        ck.bad(rule, construct, where, f'{died[0]} (in every partition{", e.g." + died[1] if died[1] else ""})')
    if any(k.startswith(f'{rule}|{construct}') for k in ck.violations):
        return
    if undec:
        ck.open(rule, construct, undec)
    elif n:
        ck.ok(rule, f'{construct} ({n} equalities)', where)
    elif vacuous and not died:
        ck.notes.setdefault(vacuous, []).append(construct)
    else:
        ck.open(rule, construct, 'no partition was decided')


class Ref_:
    """reference algebra on arrays of value numbers"""
    def __init__(self, ev):
        self.ev, self.F = ev, ev.F

    def n(self, x):
        return self.F.num(x)

    def eye(self, n):
        return Arr([self.F.num(int(i == j)) for i in range(n) for j in range(n)], (n, n))

    def diag(self, xs):
        n = len(xs)
        return Arr([xs[i] if i == j else self.F.num(0) for i in range(n) for j in range(n)], (n, n))

    def mul(self, *ms):
        r = ms[0]
        for m in ms[1:]:
            r = self.ev.arith(ast.Mult, r, m)
        return r

    def mm(self, *ms):
        r = ms[0]
        for m in ms[1:]:
            r = self.ev.matmul(r, m)
        return r

    def add(self, a, b):
        return self.ev.binop_arr(lambda x, y: self.ev.add(x, y), a, b) if isinstance(a, Arr) or isinstance(b, Arr) \
            else self.F.add(self.F.num(a), self.F.num(b))

    def sub(self, a, b):
        return self.ev.binop_arr(lambda x, y: self.ev.scalar(ast.Sub, x, y, True), a, b) \
            if isinstance(a, Arr) or isinstance(b, Arr) else self.F.sub(self.F.num(a), self.F.num(b))

    def div(self, a, b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.ev.binop_arr(lambda x, y: self.ev.scalar(ast.Div, x, y, True), a, b)
        return self.F.div(self.F.num(a), self.F.num(b))

    def inv(self, m):
        return self.ev.inverse(m)

    def coef(self, z, typ):
        """(V, I) = (Va a + Vb b, Ia a + Ib b) and (a, b) = (aV V + aI I, bV V + bI I)
        from the wave definitions of the documentation"""
        F = self.F
        z = F.num(z)
        two = F.num(2)
        if typ == 'V':
            r, zb = F.num(1), z
        elif typ == 'P':
            r, zb = F.sqrt(z), z
        else:
            r, zb = F.sqrt(F.realpart(z)), F.conj(z)
        # a = (V + z I)/(2 r), b = (V - zb I)/(2 r)
        q = F.inv(F.mul(two, r))
        aV, aI, bV, bI = q, F.mul(q, z), q, F.neg(F.mul(q, zb))
        det = F.sub(F.mul(aV, bI), F.mul(aI, bV))
        d = F.inv(det)
        Va, Vb, Ia, Ib = F.mul(bI, d), F.neg(F.mul(aI, d)), F.neg(F.mul(bV, d)), F.mul(aV, d)
        return (aV, aI, bV, bI), (Va, Vb, Ia, Ib)

    def convert(self, z2, S, z1, t2='V', t1='V'):
        """S-matrix (n,n) seen at z1 (scalar or list) of type t1 -> at z2 of type t2"""
        n = S.shape[0]
        l1 = z1 if isinstance(z1, (list, tuple)) else [z1] * n
        l2 = z2 if isinstance(z2, (list, tuple)) else [z2] * n
        c1 = [self.coef(z, t1)[1] for z in l1]
        c2 = [self.coef(z, t2)[0] for z in l2]
        V = self.add(self.diag([c[0] for c in c1]), self.mm(self.diag([c[1] for c in c1]), S))
        I = self.add(self.diag([c[2] for c in c1]), self.mm(self.diag([c[3] for c in c1]), S))
        A = self.add(self.mm(self.diag([c[0] for c in c2]), V), self.mm(self.diag([c[1] for c in c2]), I))
        B = self.add(self.mm(self.diag([c[2] for c in c2]), V), self.mm(self.diag([c[3] for c in c2]), I))
        return self.mm(B, self.inv(A))

    def S_from_Z(self, Z, z0):
        n = Z.shape[0]
        zi = self.mul(self.eye(n), z0)
        return self.mm(self.sub(Z, zi), self.inv(self.add(Z, zi)))

    def S_from_Y(self, Y, z0):
        n = Y.shape[0]
        y = self.mul(Y, z0)
        return self.mm(self.sub(self.eye(n), y), self.inv(self.add(self.eye(n), y)))

    def Z_from_S(self, S, z0):
        n = S.shape[0]
        return self.mul(self.mm(self.add(self.eye(n), S), self.inv(self.sub(self.eye(n), S))), z0)

    def Y_from_S(self, S, z0):
        n = S.shape[0]
        return self.div(self.mm(self.sub(self.eye(n), S), self.inv(self.add(self.eye(n), S))), z0)


def R(ev):
    return Ref_(ev)


def call(ev, func, *args, **kws):
    return ev.apply(Ref('func', func), list(args), kws)


def meth(ev, obj, name, *args, **kws):
    return ev.apply(ev.getattr(obj, name), list(args), kws)


def stack(ev, ms):
    return ev.stack(ms)
