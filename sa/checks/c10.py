"""C10: derived transmission-line parameters satisfy their defining relations."""
import itertools

from ..aev import Arr, Ref, Opaque
from ..laws import law, call, meth, same
from ..field import Num, P
from ..models import setup, freq, interp1d
from .c09 import E_, fclass

META = {
    'explanation': 'Abstract interpretation over value numbers of the parameter resolver for every subset (up to four) '
                   'of the line parameters, every way to describe the losses and every kind of value (number, '
                   'function of frequency and position in either order, values at equal distances, table): the '
                   'parameters that come out have to satisfy every defining relation among themselves at a generic '
                   'frequency and position; a parameter whose value differs at two frequencies or positions has to be '
                   'marked so; a parameter derived from others may not read any parameter it does not name.',
    'rules': {
        'relation': 'every pair of derivations agrees: all relations hold among the parameters that come out',
        'losses': 'the same with conductor, medium or total losses described in each documented way',
        'derivation': 'each derivation, forced by leaving out the others, satisfies the relations',
        'marked': 'a value that differs between frequencies (positions) is marked as frequency (position) dependent',
        'reads': 'a derived parameter reads only the parameters it is declared to be derived from',
        'input': 'a given number, function, list or table is the parameter, at every frequency and position',
        'non-uniform': 'a line with a position dependent parameter is integrated, not solved as a uniform line',
    },
    'assumptions': ['given parameters do not contradict each other', 'parameters are positive, losses not negative',
                    'the interpolant reproduces the values at the nodes'],
    'technique': 'abstract interpretation of the parameter resolver over value numbers (global value numbering with '
                 'trace partitioning) against the defining relations; dependence analysis by value numbers',
}

BASE = ('OD', 'ID', 'Z0TL', 'LTL', 'CTL', 'vr', 'etar', 'epsr', 'mur')
C0 = 299792458


def consts(ev):
    F, m = ev.F, E_(ev)
    mu0 = F.sym('scipy.constants.mu_0', pos='+')
    e0 = F.inv(F.mul(F.num(C0 ** 2), mu0))
    eta = m.div(F.sqrt(F.div(mu0, e0)), m.mul(2, F.pi))
    return mu0, e0, eta


def reference(ev):
    """generic values that satisfy the relations of the loss free line"""
    F, m = ev.F, E_(ev)
    mu0, e0, eta = consts(ev)
    mur, epsr, lam, li = [ev.sym(n, pos='+') for n in ('mur', 'epsr', 'lam', 'logID')]
    # log(ID), log(OD), log(OD/ID) and log(ID/OD) are known
    ID, r = F.exp(li), F.exp(lam)
    OD = F.mul(ID, r)
    lo = F.add(lam, li)
    F.exps.append((lo.re, OD.re))
    F.expos[lo.re] = '+'
    v = dict(mur=mur, epsr=epsr, ID=ID, OD=OD)
    v['etar'] = F.sqrt(F.div(mur, epsr))
    v['vr'] = F.inv(F.sqrt(F.mul(mur, epsr)))
    v['Z0TL'] = m.mul(v['etar'], eta, lam)
    v['LTL'] = m.div(v['Z0TL'], m.mul(C0, v['vr']))
    v['CTL'] = m.div(1, m.mul(v['Z0TL'], C0, v['vr']))
    v['lam'] = lam
    return v


def relations(ev, g, w):
    """[(name, left, right)] among the values g of the parameters at w"""
    F, m = ev.F, E_(ev)
    mu0, e0, eta = consts(ev)
    out = []

    def rel(name, need, sides):
        if all(k in g for k in need.split()):
            try:
                out.append((name,) + sides(*[g[k] for k in need.split()]))
            except ZeroDivisionError:
                ev.unk(f'{name}: division by zero')
    one = F.num(1)
    sq = lambda x: F.mul(x, x)
    rel('LTL c vr = Z0TL', 'LTL vr Z0TL', lambda L, v, Z: (m.mul(L, v, C0), Z))
    rel('CTL Z0TL c vr = 1', 'CTL vr Z0TL', lambda C, v, Z: (m.mul(C, Z, v, C0), one))
    rel('LTL CTL (c vr)^2 = 1', 'CTL vr LTL', lambda C, v, L: (m.mul(C, L, sq(m.mul(v, C0))), one))
    rel('LTL = CTL Z0TL^2', 'CTL LTL Z0TL', lambda C, L, Z: (m.mul(C, sq(Z)), L))
    rel('Z0TL = etar eta0 ln(OD/ID) / 2 pi', 'Z0TL etar OD ID',
        lambda Z, e, O, I: (Z, m.mul(e, eta, F.log(F.div(O, I)))))
    rel('2 pi LTL = mu0 mur ln(OD/ID)', 'LTL mur OD ID',
        lambda L, u, O, I: (m.mul(2, F.pi, L), m.mul(mu0, u, F.log(F.div(O, I)))))
    rel('CTL ln(OD/ID) = 2 pi eps0 epsr', 'CTL epsr OD ID',
        lambda C, p, O, I: (m.mul(C, F.log(F.div(O, I))), m.mul(2, F.pi, e0, p)))
    rel('etar^2 epsr = mur', 'etar epsr mur', lambda e, p, u: (m.mul(sq(e), p), u))
    rel('vr^2 epsr mur = 1', 'vr epsr mur', lambda v, p, u: (m.mul(sq(v), p, u), one))
    rel('etar = mur vr', 'etar vr mur', lambda e, v, u: (e, m.mul(v, u)))
    rel('rjwL = rTL + j w LTL', 'rjwL rTL LTL', lambda z, r, L: (z, m.add(r, m.mul(m.j(), w, L))))
    rel('gjwC = gTL + j w CTL', 'gjwC gTL CTL', lambda y, r, C: (y, m.add(r, m.mul(m.j(), w, C))))
    rel('Zc^2 gjwC = rjwL', 'Zc gjwC rjwL', lambda Z, y, z: (m.mul(sq(Z), y), z))
    rel('gamma^2 = rjwL gjwC', 'gamma gjwC rjwL', lambda q, y, z: (sq(q), m.mul(y, z)))
    rel('beta = w sqrt(LTL CTL)', 'beta LTL CTL', lambda b, L, C: (sq(b), m.mul(sq(w), L, C)))
    rel('rTL = rTLI + rTLO', 'rTL rTLI rTLO', lambda r, a, b: (r, m.add(a, b)))
    for s in ('I', 'O'):
        rel(f'rTL{s} = Rs{s} qTL{s}', f'rTL{s} Rs{s} qTL{s}', lambda r, a, b: (r, m.mul(a, b)))
        rel(f'qTL{s} pi {s}D = 1', f'qTL{s} {s}D', lambda q, d: (m.mul(q, F.pi, d), one))
        rel(f'Rs{s}^2 = w mu0 mur{s} rho{s} / 2', f'Rs{s} mur{s} rho{s}',
            lambda R, u, r: (m.mul(2, sq(R)), m.mul(w, mu0, u, r)))
    rel('gTL ln(OD/ID) = 2 pi sigma', 'gTL OD ID sigma',
        lambda g_, O, I, s: (m.mul(g_, F.log(F.div(O, I))), m.mul(2, F.pi, s)))
    rel('gTL Z0TL = sigma etar eta0', 'gTL sigma Z0TL etar',
        lambda g_, s, Z, e: (m.mul(g_, Z), m.mul(2, F.pi, s, e, eta)))
    rel('sigma = w epsr eps0 tand', 'sigma epsr tand', lambda s, p, t: (s, m.mul(w, p, e0, t)))
    rel('A = AdB ln(10) / 20', 'A AdB', lambda a, d: (m.mul(20, a), m.mul(d, F.log(F.num(10)))))

    def att(a, r, g_, L, C):
        """A = Re gamma <=> gamma = A + j b, b = w (r C + g L) / 2 A, A^2 - b^2 = r g - w^2 L C"""
        if a == F.num(0):
            return F.add(r, g_), F.num(0)
        b = m.div(m.mul(w, m.add(m.mul(r, C), m.mul(g_, L))), m.mul(2, a))
        return m.add(sq(a), F.neg(sq(b))), m.add(m.mul(r, g_), F.neg(m.mul(sq(w), L, C)))
    rel('A = Re gamma', 'A rTL gTL LTL CTL', att)
    return out


def point(ev, o, w, x, names=None):
    g = {}
    for k in names or ev.getattr(o, 'kwset'):
        q = ev.apply(ev.getattr(o, k), [w, x], {})
        if isinstance(q, Arr):
            if len(q.flat) != 1:
                ev.unk(f'{k} is an array')
            q = q.flat[0]
        if isinstance(q, Opaque):
            ev.unk(k)
        g[k] = ev.F.num(q)
    return g


def resolver(ev, kw, forget=()):
    fk = {tuple(d): k for d, k in forget}
    a = dict(kw)
    if fk:
        a['forget'] = fk
    return ev.construct(ev.pkg.cls('TLresolver'), [], a)


def w_(ev, k=0):
    return ev.F.mul(ev.F.num(2), ev.F.mul(ev.F.pi, freq(ev, k)))


def ctor(ck):
    k = ck.pkg.cls('TLresolver')
    return k.find('__init__') if k else None


def marks(ev, o, pts, tag=''):
    """pts: {(k, l): values at frequency k and position l}"""
    out = []
    ks = ev.getattr(o, 'kwset')
    for k in sorted(ks, key=str):
        for name, a, b in (('frequency', (0, 0), (1, 0)), ('position', (0, 0), (0, 1))):
            if a in pts and b in pts and k in pts[a] and k in pts[b] and same(pts[a][k], pts[b][k]) is False:
                d = ks[k].get('ddw' if name == 'frequency' else 'ddx')
                out.append((f'{k}{tag} is marked as {name} dependent', bool(d), True))
    return out


def quiet(ev):
    """parameters that agree give no warning"""
    bad = [' '.join(t for t in a if isinstance(t, str)) for a in ev.printed]
    bad = [t for t in bad if 'warning' in t and 'differ' in t]
    return [('a derivation', bad[0][:60] if bad else 'agrees', 'agrees')]


def solved(ev, o, need=('rjwL', 'gjwC', 'Zc', 'gamma')):
    ks = ev.getattr(o, 'kwset')
    return [(f'{k} is found', k in ks, True) for k in need]


def r_relation(ck, sub):
    def go(ev):
        start(ev)
        v = reference(ev)
        o = resolver(ev, {k: v[k] for k in sub})
        w, x = w_(ev), ev.sym('x', pos='+')
        g = point(ev, o, w, x)
        out = relations(ev, g, w) + solved(ev, o) + quiet(ev)
        out += [(f'the given {k}', g[k], v[k]) for k in sub if k in g]
        if 'Z0TL' not in sub and g.get('Z0TL') is not None and not set(sub) & {'LTL', 'CTL', 'OD', 'ID'}:
            # nothing to find it from
            out.append(('the impedance without any information', g['Z0TL'], ev.F.num(50)))
        for k in ('mur', 'epsr'):
            if not set(sub) & {k, 'vr', 'etar', 'LTL', 'CTL', 'OD', 'ID', 'Z0TL'} and k in g:
                out.append((f'{k} without any information', g[k], ev.F.num(1)))
        pts = {(a, b): point(ev, o, w_(ev, a), ev.sym(f'x{b}', pos='+')) for a, b in ((0, 0), (1, 0), (0, 1))}
        return out + marks(ev, o, pts)
    law(ck, 'relation', f'from {"+".join(sub) or "nothing"}', ctor(ck), go)


LOSS = {
    'A': ('A',), 'AdB': ('AdB',), 'A and medium loss': ('A', 'gTL'), 'A and conductor loss': ('A', 'rTL'),
    'A and loss angle': ('A', 'tand'), 'A and conductivity': ('A', 'sigma'), 'AdB and loss angle': ('AdB', 'tand'),
    'AdB and inner resistance': ('AdB', 'rTLI', 'gTL'), 'rTL': ('rTL',), 'gTL': ('gTL',), 'rTL and gTL': ('rTL', 'gTL'),
    'inner and outer': ('rTLI', 'rTLO'), 'total and inner': ('rTL', 'rTLI'), 'total and outer': ('rTL', 'rTLO'),
    'surface resistances': ('RsI', 'RsO'), 'surface and perimeter': ('RsI', 'RsO', 'qTLI', 'qTLO'),
    'resistivity': ('rho',), 'resistivities': ('rhoI', 'rhoO'), 'magnetic conductors': ('rhoI', 'rhoO', 'murI', 'murO'),
    'magnetic inner conductor': ('rho', 'murI'), 'conductivity': ('sigma',), 'loss angle': ('tand',),
    'resistivity and loss angle': ('rho', 'tand'), 'resistivity and conductivity': ('rho', 'sigma'),
}


def lossvals(ev, names, v):
    F, m = ev.F, E_(ev)
    out = {}
    for n in names:
        out[n] = ev.sym(n, pos='+')
    if 'rTL' in out and ('rTLI' in out or 'rTLO' in out):
        a = 'rTLI' if 'rTLI' in out else 'rTLO'
        out['rTL'] = m.add(out[a], ev.sym('rTLx', pos='+'))
    return out


def r_losses(ck, name, base, forget=()):
    def go(ev):
        start(ev)
        v = reference(ev)
        lv = lossvals(ev, LOSS[name], v)
        o = resolver(ev, dict({k: v[k] for k in base}, **lv), forget)
        w, x = w_(ev), ev.sym('x', pos='+')
        g = point(ev, o, w, x)
        out = relations(ev, g, w) + solved(ev, o) + quiet(ev)
        out += [(f'the given {k}', g[k], lv[k]) for k in lv if k in g]
        if 'A' in lv or 'AdB' in lv:
            # losses from the attenuation: the root that vanishes with it
            for a, b, c, d in (('rTL', 'gTL', 'LTL', 'CTL'), ('gTL', 'rTL', 'CTL', 'LTL')):
                if a in lv or not all(q in g for q in (a, b, c, d, 'A')) or b not in ('gTL', *lv):
                    continue
                if name in ('A', 'AdB') and a != 'rTL':
                    continue
                F, m = ev.F, E_(ev)
                bb = m.div(g[b], m.mul(w, g[d]))
                u = m.div(g['A'], F.sqrt(m.mul(w, w, g[c], g[d])))
                u2 = m.mul(u, u)
                rt = m.mul(2, u, F.sqrt(m.mul(m.add(m.mul(bb, bb), 1), m.add(u2, 1))))
                first = m.neg(m.mul(m.add(1, m.mul(2, u2)), bb))
                wrong = m.mul(m.add(first, m.neg(rt)), w, g[c])
                out.append((f'{a} from the attenuation is the negative root', same(g[a], wrong), False))
        if name in ('A', 'AdB'):
            out.append(('an attenuation alone is due to the conductors', g.get('gTL'), ev.F.num(0)))
        if name == 'gTL':
            out.append(('no conductor losses', g.get('rTL'), ev.F.num(0)))
        if name in ('rTL', 'resistivity', 'resistivities', 'surface resistances', 'inner and outer'):
            out.append(('no medium losses', g.get('gTL'), ev.F.num(0)))
        if name == 'resistivity':
            out += [(f'rho of the {t} conductor', g.get(k), lv['rho']) for k, t in (('rhoI', 'inner'),
                                                                                    ('rhoO', 'outer'))]
        pts = {(a, b): point(ev, o, w_(ev, a), ev.sym(f'x{b}', pos='+')) for a, b in ((0, 0), (1, 0), (0, 1))}
        return out + marks(ev, o, pts)
    f = f' without {forget[0][1]}' if forget else ''
    law(ck, 'losses', f'{name} with {"+".join(base)}{f}', ctor(ck), go, limit=60)


def sized(ev, k, n):
    """outer diameters exceed inner ones"""
    if k in ('OD', 'ID'):
        ev.F.sized[n.re] = 1 if k == 'ID' else 2
    return n


def positive(ev, r, d):
    return sized(ev, d[:2], Num(pow(r.re, 48, P), 0, '+', None, d))


def psym(ev, k, name=None):
    return sized(ev, k, ev.sym(name or k, pos='+'))


def interp(ev, A, kws):
    """interpolated values of positive data are positive"""
    f = interp1d(ev, A, kws)

    def g(ev, a, k):
        r = ev.asarr(f.x(ev, a, k))
        t = getattr(ev.asarr(A[1]).flat[0], 'd', '')[:2]
        return Arr([v if v.pos or v.c is not None else positive(ev, v, f'{t} interpolated') for v in r.flat], r.shape)
    return Ref('py', g, cls=['x'])


def start(ev):
    setup(ev)
    ev.ext['scipy.interpolate.interp1d'] = interp
    ev.F.log_pos = True


def fn(ev, name, args):
    """a function of w, x the caller gives"""
    F = ev.F

    def f(ev, A, kws):
        a = dict(zip(args, A))
        a.update(kws)
        if set(a) != set(args):
            from ..aev import AbsRaise
            raise AbsRaise('TypeError', (f'{name}: arguments {sorted(a)}',), ev.where())
        vals = [F.num(a[k].flat[0] if isinstance(a[k], Arr) else a[k]) for k in ('w', 'x') if k in a]
        return positive(ev, F.fun(f'{name}()', *vals, real=True), f'{name}({",".join(args)})')
    return Ref('py', f, cls=list(args))


WAYS = {'(w)': ('w',), '(x)': ('x',), '(w,x)': ('w', 'x'), '(x,w)': ('x', 'w'), '()': ()}


def given(ev, k, way, L, vals=None):
    """(what the caller gives, its value at w, x)"""
    F, m = ev.F, E_(ev)
    if way in WAYS:
        f = fn(ev, k, WAYS[way])
        return f, lambda w, x: f.x(ev, [], {q: {'w': w, 'x': x}[q] for q in WAYS[way]})
    if way == 'number':
        s = psym(ev, k)
        return s, lambda w, x: s
    if way == '[number]':
        s = psym(ev, k)
        return [s], lambda w, x: s
    n = {'ends': 2, 'equidistant': 3, 'table': 3}[way]
    ys = [psym(ev, k, f'{k}{i}') for i in range(n)]
    if way == 'table':
        xs = [F.num(0), m.div(L, 3), L]
        p = [xs, ys]
    else:
        xs = [m.div(m.mul(L, i), n - 1) for i in range(n)]
        p = ys
    return p, dict(xs=xs, ys=ys)


def r_input(ck, k, way):
    def go(ev):
        start(ev)
        L = ev.sym('L', pos='+')
        p, ref = given(ev, k, way, L)
        o = ev.construct(ev.pkg.cls('TLresolver'), [], {k: p, 'L': L})
        out = []
        w = w_(ev)
        q = lambda w, x: (lambda r: r.flat[0] if isinstance(r, Arr) and len(r.flat) == 1 else r)(
            ev.apply(ev.getattr(o, k), [w, x], {}))
        if isinstance(ref, dict):
            for i, (x, y) in enumerate(zip(ref['xs'], ref['ys'])):
                out.append((f'value {i}', q(w, x), y))
        else:
            x = ev.sym('x', pos='+')
            out.append(('value', q(w, x), ref(w, x)))
        ks = ev.getattr(o, 'kwset')[k]
        dw, dx = 'w' in way, 'x' in way or isinstance(ref, dict)
        if dw:
            out.append(('marked as frequency dependent', bool(ks.get('ddw')), True))
        if dx:
            out.append(('marked as position dependent', bool(ks.get('ddx')), True))
        return out
    law(ck, 'input', f'{k} as {way}', ctor(ck), go)


def r_reject(ck, what):
    def go(ev):
        start(ev)
        if what == 'three arguments':
            p = Ref('py', lambda ev, A, k: ev.F.num(1), cls=['w', 'x', 'y'])
            ev.construct(ev.pkg.cls('TLresolver'), [], {'Z0TL': p})
        else:
            ev.construct(ev.pkg.cls('TLresolver'), [], {'Z00': ev.sym('Z', pos='+')})
        return []
    law(ck, 'input', what, ctor(ck), go, raises='ValueError')


def r_marked(ck, sub, var, way, base=(), forget=()):
    """var of the minimal description sub+base is not constant: every value that varies is marked"""
    def go(ev):
        start(ev)
        F, m = ev.F, E_(ev)
        L = ev.sym('L', pos='+')
        kw, refs = {}, {}
        for k in tuple(sub) + tuple(base):
            if k == var:
                p, ref = given(ev, k, way, L)
                kw[k] = p
            else:
                kw[k] = psym(ev, k)
        if way in ('ends', 'table', 'equidistant'):
            kw['L'] = L
        o = resolver(ev, kw, forget)
        pts = {}
        for a, b in ((0, 0), (1, 0), (0, 1)):
            w = w_(ev, a)
            pts[a, b] = point(ev, o, w, ev.sym(f'x{b}', pos='+'))
        out = marks(ev, o, pts)
        for (a, b), g in pts.items():
            out += [(f'{n} at frequency {a}, position {b}', l, r) for n, l, r in relations(ev, g, w_(ev, a))]
        return out + solved(ev, o)
    f = f' without {forget[0][1]}' if forget else ''
    law(ck, 'marked', f'{var} as {way} of {"+".join(tuple(sub) + tuple(base))}{f}', ctor(ck), go, limit=60)


def r_reads(ck, sub):
    """freeze what a parameter is declared to be derived from; nothing else may matter"""
    def go(ev):
        start(ev)
        o = resolver(ev, {k: psym(ev, k) for k in sub})
        ks = ev.getattr(o, 'kwset')
        w, x = w_(ev), ev.sym('x', pos='+')
        saved = {k: ev.getattr(o, k) for k in ks}
        out = []
        for k in sorted(ks):
            src = ks[k].get('source')
            if not isinstance(src, str) or not src.startswith('<-- '):
                continue
            deps = [d.strip() for d in src[4:].split(',')]
            if any(d not in ks for d in deps):
                continue
            got = []
            for t in range(2):
                for d in ks:
                    if d != k:
                        s = psym(ev, d, f'frozen {d}' if d in deps else f'other {d} {t}')
                        o.attrs[d] = Ref('py', lambda ev, A, kw, s=s: s, cls=['w', 'x'])
                o.attrs[k] = saved[k]
                got.append(ev.apply(saved[k], [w, x], {}))
            o.attrs.update(saved)
            out.append((f'{k} depends on {", ".join(deps)} only', got[0], got[1]))
        return out
    law(ck, 'reads', f'from {"+".join(sub)}', ctor(ck), go, limit=60)


def r_nonuniform(ck, sub, var, way):
    def go(ev):
        start(ev)
        F, m = ev.F, E_(ev)
        ev.total = True
        seen = []

        def odeint(ev, A, kws):
            seen.append(1)
            xs = ev.asarr(A[2])
            return ev.arr('sol', (len(xs.flat), 4), 'real')
        ev.ext['scipy.integrate.odeint'] = odeint
        L = ev.sym('L', pos='+')
        p, ref = given(ev, var, way, L)
        kw = {k: psym(ev, k) for k in sub if k != var}
        o = ev.construct(ev.pkg.cls('rfTRL'), [], dict(kw, **{var: p}, L=L, dx=m.div(L, 3), Zbase=ev.sym('Z1', pos='+')))
        meth(ev, o, 'getS', freq(ev))
        return [('the telegraphist\'s equation is integrated', bool(seen), True)]
    law(ck, 'non-uniform', f'{var} as {way} of {"+".join(sub)}', fclass(ck, 'rfTRL', 'getS'), go, limit=60)


# derivations: (parameter, parameters it is derived from)
DERIV = [(k, tuple(d.split())) for k, ds in {
    'LTL': ['Z0TL vr', 'Z0TL CTL', 'CTL vr'], 'CTL': ['Z0TL vr', 'Z0TL LTL', 'LTL vr'],
    'Z0TL': ['LTL CTL', 'etar ID OD'], 'vr': ['CTL LTL', 'mur epsr', 'etar mur'], 'ID': ['etar OD Z0TL'],
    'OD': ['etar ID Z0TL'], 'etar': ['mur epsr', 'mur vr', 'Z0TL ID OD'],
    'mur': ['etar epsr', 'vr epsr', 'etar vr', 'LTL ID OD'], 'epsr': ['etar mur', 'vr mur', 'CTL ID OD'],
    'gTL': ['ID OD sigma', 'sigma Z0TL etar', 'rTL LTL CTL A'], 'rTL': ['rTLI rTLO', 'gTL LTL CTL A'],
    'rTLI': ['rTL rTLO', 'RsI qTLI'], 'rTLO': ['rTL rTLI', 'RsO qTLO'], 'qTLI': ['ID'], 'qTLO': ['OD'],
    'RsI': ['rhoI murI'], 'RsO': ['rhoO murO'], 'A': ['AdB', 'rTL gTL LTL CTL'], 'sigma': ['tand epsr', 'gTL OD ID'],
    'tand': ['sigma epsr'],
}.items() for d in ds]


def r_derivation(ck, k, deps):
    """all other derivations are left out"""
    def go(ev):
        start(ev)
        v = reference(ev)
        kw = {d: v[d] if d in v else ev.sym(d, pos='+') for d in deps}
        if 'rTL' in kw and ('rTLI' in kw or 'rTLO' in kw):
            kw.update(lossvals(ev, deps, v))
        others = {}
        for t, d in DERIV:
            if (t, set(d)) != (k, set(deps)):
                others.setdefault(tuple(d), t)
        o = resolver(ev, kw, tuple(others.items()))
        ks = ev.getattr(o, 'kwset')
        src = ks.get(k, {}).get('source', '')
        if set(q.strip() for q in src.replace('<--', '').split(',')) != set(deps):
            ev.unk(f'{k} is {src!r}')
        w, x = w_(ev), ev.sym('x', pos='+')
        names = [q for q in ks if q == k or q in deps]
        g = point(ev, o, w, x, names)
        return relations(ev, g, w)
    law(ck, 'derivation', f'{k} from {", ".join(deps)}', ctor(ck), go, limit=60)


def run(ck):
    ck.anchor('TLresolver.__init__', ctor(ck) is not None)
    ck.anchor('rfTRL.getS', fclass(ck, 'rfTRL', 'getS') is not None)
    n = 4 if ck.tier == 'quick' else 6
    subs = [s for k in range(n + 1) for s in itertools.combinations(BASE, k)]
    ck.pmap('relation', r_relation, [(s,) for s in subs])
    ck.pmap('derivation', r_derivation, DERIV)
    bases = [('OD', 'ID'), ('OD', 'Z0TL'), ('ID', 'Z0TL', 'epsr'), ('OD', 'ID', 'epsr', 'mur')]
    free = [('Z0TL',), ('LTL', 'CTL'), ('Z0TL', 'vr'), ('Z0TL', 'epsr'), ('LTL', 'epsr')]
    need = {'resistivity', 'resistivities', 'magnetic conductors', 'magnetic inner conductor', 'surface resistances',
            'resistivity and loss angle', 'resistivity and conductivity'}
    items = [(l, b) for l in LOSS for b in ([] if l == 'surface and perimeter' else bases) + ([] if l in need else free)]
    ck.pmap('losses', r_losses, items)
    ck.pmap('input', r_input, [(k, w) for k in ('Z0TL', 'LTL', 'OD', 'A', 'rho', 'tand')
                               for w in ('number', '[number]', 'ends', 'equidistant', 'table', *WAYS)])
    ck.pmap('input', r_reject, [('three arguments',), ('unknown parameter',)])
    mk = []
    for sub in (('OD', 'ID'), ('OD', 'Z0TL'), ('ID', 'Z0TL'), ('Z0TL', 'vr'), ('LTL', 'CTL'), ('Z0TL', 'LTL'),
                ('Z0TL', 'CTL'), ('LTL', 'vr'), ('CTL', 'vr'), ('Z0TL', 'epsr', 'mur'), ('Z0TL', 'etar', 'epsr'),
                ('Z0TL', 'etar', 'mur'), ('Z0TL', 'vr', 'epsr'), ('Z0TL', 'vr', 'mur'), ('Z0TL', 'vr', 'etar'),
                ('OD', 'ID', 'LTL'), ('OD', 'ID', 'CTL'), ('OD', 'ID', 'Z0TL')):
        for var in sub:
            for way in ('(w)', '(x)', '(x,w)', 'table'):
                mk.append((sub, var, way))
    for l, b in (('A', ('Z0TL',)), ('AdB', ('LTL', 'CTL')), ('A and medium loss', ('Z0TL',)),
                 ('A and conductor loss', ('Z0TL',)), ('A and loss angle', ('OD', 'ID')), ('resistivity', ('OD', 'ID')),
                 ('magnetic conductors', ('OD', 'ID')), ('loss angle', ('OD', 'ID')), ('loss angle', ('Z0TL', 'epsr')),
                 ('conductivity', ('OD', 'ID')), ('rTL and gTL', ('Z0TL',)), ('inner and outer', ('Z0TL',)),
                 ('surface and perimeter', ('Z0TL',)), ('total and inner', ('Z0TL',))):
        for var in LOSS[l] + b:
            for way in ('(w)', '(x)'):
                mk.append((LOSS[l], var, way, b))
    ck.pmap('marked', r_marked, mk)
    ck.pmap('reads', r_reads, [(s,) for s in subs if 1 <= len(s) <= 3] +
            [(LOSS[l] + b,) for l, b in items if len(b) < 3])
    nu = [(s, v, w) for s in (('OD', 'ID'), ('Z0TL', 'vr'), ('Z0TL', 'epsr'), ('LTL', 'CTL'), ('Z0TL', 'A'),
                              ('OD', 'ID', 'rho'), ('OD', 'ID', 'tand')) for v in s for w in ('(x)', 'ends', 'table')]
    ck.pmap('non-uniform', r_nonuniform, nu)
