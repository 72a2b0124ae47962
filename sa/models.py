"""Generic instances of the package's RF objects for the abstract evaluator."""
import itertools

from .aev import Arr, Ref, Obj, Opaque, AbsRaise
from .field import Num


def interp1d(ev, A, kws):
    """an interpolant: an uninterpreted function of data and query that
    reproduces the data at the sample points; bound and kind are part of it"""
    x, y = ev.asarr(A[0]), ev.asarr(A[1]).copy()
    xs = list(x.flat)
    if not xs:
        raise AbsRaise('ValueError', ('cannot reshape array of size 0',), ev.where())
    kind = kws.get('kind', 'linear')
    fill = kws.get('fill_value', 'none')

    def at(q):
        for k, xk in enumerate(xs):
            if ev.eq(xk, q):
                return list(ev.getitem(y, k).flat) if y.ndim > 1 else [y.flat[k]]
        n = len(y.flat) // max(1, len(xs))
        cols = [y.flat[j::n] for j in range(n)]
        F = ev.F
        return [F.fun(f'interpolation({kind},{fill})', F.num(q), *[F.num(v) for v in xs],
                      *[F.num(v) for v in c], real=all(F.num(v).real for v in c)) for c in cols]

    def f(ev, a, k):
        q = a[0]
        qa = ev.asarr(q)
        out = [z for v in qa.flat for z in at(v)]
        return Arr(out, tuple(qa.shape) + tuple(y.shape[1:]))
    return Ref('py', f)


def polyfit(ev, A, kws):
    """least squares through deg+1 points: the interpolating polynomial"""
    x, y = ev.asarr(A[0]), ev.asarr(A[1])
    deg = A[2] if len(A) > 2 else kws.get('deg')
    n = len(x.flat)
    if deg != n - 1:
        ev.unk('polyfit of more points than coefficients')
    F = ev.F
    rows = []
    for v in x.flat:
        pw = [F.num(1)]
        for _ in range(deg):
            pw.append(F.mul(pw[-1], F.num(v)))
        rows += pw[::-1]
    r = ev.matmul(ev.inverse(Arr(rows, (n, n))), Arr(list(y.flat), (n, 1)))
    return Arr(list(r.flat), (n,))


def setup(ev):
    ev.ext.setdefault('scipy.interpolate.interp1d', interp1d)
    ev.ext.setdefault('numpy.polyfit', polyfit)
    return ev


def cls(ev, name):
    c = ev.pkg.cls(name)
    if c is None:
        ev.unk(f'class {name} is not there')
    return c


def freq(ev, k=0):
    if k in getattr(ev, 'freqs', {}):       # a concrete frequency
        return ev.F.num(ev.freqs[k])
    return ev.sym(f'f{k}', pos='+')


def make(ev, kind, **over):
    """a generic object of one kind, with symbolic parameters"""
    setup(ev)
    z = over.pop('Zbase', None) or ev.sym('Z1', pos='+')
    s = ev.sym
    if kind == 'rfBase':
        return ev.construct(cls(ev, kind), [], dict(
            dict(Ss=ev.arr('S', (2, 2, 2)), fs=[freq(ev, 0), freq(ev, 1)], Zbase=z), **over))
    if kind == 'rfObject':
        o = ev.construct(cls(ev, kind), [], dict(dict(ports=['p1', 'p2'], Zbase=z), **over))
        for k in range(2):
            ev.apply(ev.getattr(o, 'setS'), [freq(ev, k), ev.arr(f'S{k}', (2, 2))], {})
        return o
    if kind == 'rfRLC':
        return ev.construct(cls(ev, kind), [], dict(
            dict(Rs=s('Rs', pos='+'), Ls=s('Ls', pos='+'), Cs=s('Cs', pos='+'), Rp=s('Rp', pos='+'),
                 Lp=s('Lp', pos='+'), Cp=s('Cp', pos='+'), Zbase=z), **over))
    if kind == 'rfArcObj':
        return ev.construct(cls(ev, kind), [], dict(dict(Larc=s('Larc', pos='+'), Zbase=z), **over))
    if kind == 'rfCoupler':
        return ev.construct(cls(ev, kind), [], dict(dict(f0Hz=s('fc', pos='+'), kc=s('kc', pos='+'), Zbase=z), **over))
    if kind == 'rfTRL':
        return ev.construct(cls(ev, kind), [], dict(dict(L=s('L', pos='+'), Z0TL=s('Z0TL', pos='+'), Zbase=z), **over))
    if kind == 'rfCircuit':
        o = ev.construct(cls(ev, kind), [], dict(dict(Zbase=z), **over))
        m = ev.getattr
        b1 = ev.construct(cls(ev, 'rfRLC'), [], dict(Rs=s('Rs', pos='+'), Cp=s('Cp', pos='+')))
        b2 = ev.construct(cls(ev, 'rfRLC'), [], dict(Lp=s('Lp', pos='+')))
        ev.apply(m(o, 'addblock'), ['A', b1], {'ports': ['a', 'b']})
        ev.apply(m(o, 'addblock'), ['B', b2], {'ports': ['c', 'd']})
        ev.apply(m(o, 'connect'), ['A.b', 'B.c'], {})
        return o
    ev.unk(f'no model of {kind}')


KINDS = ['rfBase', 'rfObject', 'rfRLC', 'rfArcObj', 'rfCoupler', 'rfTRL', 'rfCircuit']

VARIANTS = ['rfGTL model', 'rfObject one port', 'rfObject three ports', 'rfObject with Zbase 30', 'rfRLC series', 'rfTRL losses',
            'rfTRL table', 'rfTRL varying', 'rfCircuit nested', 'rfCircuit terminated', 'rfCircuit array', 'rfCircuit table']


def odeint(ev, A, kws):
    """an uninterpreted solution of an initial value problem: the values at
    the positions depend on start value and the right-hand side on the way"""
    f, y0, xs = A[0], ev.asarr(A[1]), ev.asarr(A[2])
    F = ev.F
    ys = [ev.sym(f'y{k}') for k in range(len(y0.flat))]
    rhs = []
    for x in xs.flat:
        rhs += [F.num(v) for v in ev.asarr(ev.apply(f, [Arr(list(ys), (len(ys),)), x], {})).flat]
    out = list(y0.flat)
    for j, x in enumerate(list(xs.flat)[1:], 1):
        out += [F.fun(f'odeint{k}', F.num(x), *[F.num(v) for v in list(y0.flat)], *rhs[:(j + 1) * len(ys)], real=True)
                for k in range(len(ys))]
    r = Arr(out, (len(xs.flat), len(ys)))
    return (r, {}) if kws.get('full_output') else r


def build(ev, kind):
    """an object of a kind or variant: (object, class name)"""
    setup(ev)
    ev.ext.setdefault('scipy.integrate.odeint', odeint)
    ev.ext.setdefault('time.strftime', lambda ev, A, k: '2020-01-01 00:00:00')
    base, _, var = kind.partition(' ')
    if not var:
        return make(ev, kind), base
    s = ev.sym
    z = s('Z1', pos='+')
    c = cls(ev, base)
    ap = lambda o, m, *a, **k: ev.apply(ev.getattr(o, m), list(a), k)
    if base == 'rfObject':
        n = 1 if var == 'one port' else 3 if var == 'three ports' else 2
        if 'Zbase' in var:
            z = ev.F.num(30)
        o = ev.construct(c, [], dict(ports=[f'p{k}' for k in range(n)], Zbase=z))
        for k in range(2):
            ap(o, 'setS', freq(ev, k), ev.arr(f'S{k}', (n, n)))
        return o, base
    if kind == 'rfRLC series':
        return ev.construct(c, [], dict(Rs=s('Rs', pos='+'), Zbase=z)), base
    if kind == 'rfTRL losses':
        return ev.construct(c, [], dict(L=s('L', pos='+'), LTL=s('LTL', pos='+'), CTL=s('CTL', pos='+'),
                                        rTL=s('rTL', pos='+'), Zbase=z)), base
    if kind == 'rfTRL table':
        t = '! data\n# MHZ S RI R 50\n' + ''.join(
            f'{f} ' + ' '.join(ev.text(s(f't{f}_{k}')) for k in range(8)) + '\n' for f in (40, 41))
        return ev.construct(c, [], dict(L=s('L', pos='+'), sNp=t, Zbase=z)), base
    if kind == 'rfTRL varying':
        a, b = s('za', pos='+'), s('zb', pos='+')
        return ev.construct(c, [], dict(L=2, Z0TL=[a, b], Zbase=z, dx=ev.F.num(2.))), base
    if base == 'rfGTL':
        ev.files = dict(ev.files or {}, **{'dir/a.ciamod': repr({'X': {
            'Portnames': ['p', 'q'], 'relpos': {'p': 10},
            'GTL': {'B': {'ports': ['p', 'm'], 'Ls': 'va', 'Rs': 3}, 'C': {'ports': ['m', 'q'], 'L': 2, 'Z': 'vz'}}}}) + '\n'})
        return ev.construct(c, ['dir/a.ciamod'], dict(
            objkey='X', variables={'va': s('va', pos='+'), 'vz': s('vz', pos='+')}, Zbase=z)), base
    if base == 'rfCircuit':
        o = ev.construct(c, [], dict(Zbase=z))
        if var == 'nested':
            ap(o, 'addblock', 'A', make(ev, 'rfCircuit', Zbase=s('Z3', pos='+')), ports=['a', 'b'])
            ap(o, 'addblock', 'B', make(ev, 'rfTRL', Zbase=s('Z4', pos='+')), ports=['c', 'd'])
            ap(o, 'connect', 'A.b', 'B.c')
        elif var == 'terminated':
            ap(o, 'addblock', 'A', make(ev, 'rfTRL', Zbase=s('Z4', pos='+')), ports=['c', 'd'])
            ap(o, 'terminate', 'A.d', Z=s('Zt', pos='+'))
        elif var == 'array':
            ap(o, 'addblock', 'A', ev.arr('S', (2, 2)), ports=['c', 'd'])
        elif var == 'table':
            ap(o, 'addblock', 'A', make(ev, 'rfTRL', Zbase=s('Z4', pos='+')), ports=['c', 'd'])
            q, _ = build(ev, 'rfObject table')
            ev.setattr(o, 'sNp', q)
            ap(o, 'getS', freq(ev, 5), flags={'sNp': False})
        return o, base
    ev.unk(f'no model of {kind}')
