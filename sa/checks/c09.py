"""C09: lumped and line elements obey their defining circuit equations."""
import itertools

from ..aev import Arr, Ref
from ..field import PINF
from ..laws import law, R, call, meth, same
from ..models import make, setup, freq

META = {
    'explanation': 'Abstract interpretation over value numbers of the element constructors and of their S-matrix and '
                   'line solutions: generic component values, frequency and reference impedance are symbols, every '
                   'combination of absent components and the zero frequency are separate cases; each entry of the '
                   'resulting S-matrix is compared, as a value number, with the solution of Kirchhoff\'s equations '
                   'of the documented schematic (or of the telegraphist\'s equation).',
    'rules': {
        'rlc': 'series branch Rs+jwLs+1/jwCs from s to p, shunt branch 1/Rp+1/jwLp+jwCp at p, for every subset of '
               'components, at the impedance asked for, with parameters given at construction, by set or by params',
        'rlc-dc': 'the same network at zero frequency',
        'arc': 'an inductance to ground, an open circuit without inductance, a short circuit at zero frequency',
        'coupler': 'even and odd mode line sections give the matrix of the coupler; ports of a strip are its ends',
        'line': 'a uniform line: cosh/sinh solution for any line parameters, zero length, zero frequency',
        'profile': 'V and I along a line satisfy the telegraphist\'s equation from the given start values, at the '
                   'nodes that are returned, for every way to give the step',
        'telegraph': 'the equations handed to the integrator for a non-uniform line are dV/dx=(r+jwL)I, '
                     'dI/dx=(g+jwC)V at the position of the integrator, from unit start vectors',
    },
    'assumptions': ['component values are generic positive numbers or absent; reference impedances are positive',
                    'the integrator solves the equations it is given'],
    'technique': 'abstract interpretation of the element code over value numbers (global value numbering with trace '
                 'partitioning) against Kirchhoff\'s and the telegraphist\'s equations',
}


class E_:
    """shorthand scalar algebra"""

    def __init__(self, ev):
        self.ev, self.F = ev, ev.F

    def j(self):
        return self.F.num(1j)

    def add(self, *xs):
        F = self.F
        r = F.num(xs[0])
        for x in xs[1:]:
            r = F.add(r, F.num(x))
        return r

    def mul(self, *xs):
        F = self.F
        r = F.num(xs[0])
        for x in xs[1:]:
            r = F.mul(r, F.num(x))
        return r

    def div(self, a, b):
        return self.F.div(self.F.num(a), self.F.num(b))

    def neg(self, a):
        return self.F.neg(self.F.num(a))

    def jw(self, f):
        return self.mul(2, self.F.pi, f, self.j())


def S_from_eqs(ev, z, rows):
    """rows: coefficients (cV1, cI1, cV2, cI2) of homogeneous equations of a two-port"""
    F, m = ev.F, E_(ev)
    n = len(rows)
    A, B = [], []
    for r in rows:
        for k in range(n):
            cV, cI = F.num(r[2 * k]), F.div(F.num(r[2 * k + 1]), F.num(z))
            # V = a + b, I = (a - b)/z :  (cV - cI/z) b = -(cV + cI/z) a
            B.append(F.sub(cV, cI))
            A.append(F.neg(F.add(cV, cI)))
    B, A = Arr(B, (n, n)), Arr(A, (n, n))
    return ev.matmul(ev.inverse(B), A)


def rlc_ref(ev, z, f, v):
    """v: dict of components present"""
    m = E_(ev)
    if f != 0:
        jw = m.jw(f)
        Zs = m.add(v.get('Rs', 0), m.mul(jw, v.get('Ls', 0)), m.div(1, m.mul(jw, v['Cs'])) if 'Cs' in v else 0)
        Yp = m.add(m.div(1, v['Rp']) if 'Rp' in v else 0, m.div(1, m.mul(jw, v['Lp'])) if 'Lp' in v else 0,
                   m.mul(jw, v.get('Cp', 0)))
        e1 = (1, m.neg(Zs), -1, 0)
        e2 = (0, 1, m.neg(Yp), 1)
    else:
        e1 = (0, 1, 0, 0) if 'Cs' in v else (1, m.neg(v.get('Rs', 0)), -1, 0)
        e2 = (0, 0, 1, 0) if 'Lp' in v else (0, 1, m.neg(m.div(1, v['Rp'])) if 'Rp' in v else 0, 1)
        if 'Cs' in v and 'Lp' not in v:
            e2 = (0, 0) + tuple(e2[2:])
    return S_from_eqs(ev, z, [e1, e2])


COMP = ('Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp')


def vals(ev, names, tag=''):
    return {n: ev.sym(n + tag, pos='+') for n in names}


def fclass(ck, c, m):
    k = ck.pkg.cls(c)
    return k.find(m) if k else None


def r_rlc(ck, names, dc):
    def go(ev):
        setup(ev)
        v = vals(ev, names)
        z1, z2 = ev.sym('Z1', pos='+'), ev.sym('Z2', pos='+')
        f = 0 if dc else freq(ev)
        o = ev.construct(ev.pkg.cls('rfRLC'), [], dict(v, Zbase=z1))
        out = [('S-matrix', meth(ev, o, 'getS', f), rlc_ref(ev, z1, f, v)),
               ('S-matrix at another impedance', meth(ev, o, 'getS', f, Zbase=z2), rlc_ref(ev, z2, f, v))]
        if dc:
            out.append(('S-matrix at 0.0', meth(ev, o, 'getS', ev.F.num(0)), rlc_ref(ev, z1, f, v)))
        return out
    law(ck, 'rlc-dc' if dc else 'rlc', f'components {"+".join(names) or "none"}', fclass(ck, 'rfRLC', 'getS'), go)


def r_rlc_set(ck, name, how):
    def go(ev):
        setup(ev)
        v = vals(ev, COMP)
        z1 = ev.sym('Z1', pos='+')
        f = freq(ev)
        o = ev.construct(ev.pkg.cls('rfRLC'), [], dict(v, Zbase=z1))
        new = ev.sym('new', pos='+')
        if how == 'set':
            meth(ev, o, 'set', **{name: new})
            got = meth(ev, o, 'getS', f)
        else:
            got = meth(ev, o, 'getS', f, params={name: new})
        return [('S-matrix', got, rlc_ref(ev, z1, f, dict(v, **{name: new})))]
    law(ck, 'rlc', f'{name} given by {how}', fclass(ck, 'rfRLC', 'getS'), go)


def r_rlc_default_z(ck):
    def go(ev):
        setup(ev)
        v = vals(ev, COMP)
        f = freq(ev)
        o = ev.construct(ev.pkg.cls('rfRLC'), [], dict(v))
        return [('S-matrix', meth(ev, o, 'getS', f), rlc_ref(ev, ev.F.num(50), f, v))]
    law(ck, 'rlc', 'default reference impedance', fclass(ck, 'rfRLC', 'getS'), go)


# --------------------------------------------------------------------- arc
def r_arc(ck, how):
    def go(ev):
        setup(ev)
        m = E_(ev)
        z1, z2 = ev.sym('Z1', pos='+'), ev.sym('Z2', pos='+')
        L, f = ev.sym('Larc', pos='+'), freq(ev)
        c = ev.pkg.cls('rfArcObj')
        if how == 'positional':
            o = ev.construct(c, [L], dict(Zbase=z1))
        elif how == 'open':
            o = ev.construct(c, [], dict(Zbase=z1))
        else:
            o = ev.construct(c, [], dict(Zbase=z1, Larc=PINF if how == 'infinite' else L))
        if how == 'dc':
            f = 0
        if how == 'set':
            L = ev.sym('Lnew', pos='+')
            meth(ev, o, 'getS', f)
            meth(ev, o, 'set', Larc=L)

        def ref(z):
            if how in ('open', 'infinite'):
                return S_from_eqs(ev, z, [(0, 1)])
            if how == 'dc':
                return S_from_eqs(ev, z, [(1, 0)])
            return S_from_eqs(ev, z, [(1, m.neg(m.mul(m.jw(f), L)))])
        out = [('S-matrix', meth(ev, o, 'getS', f), ref(z1))]
        if how != 'open' and how != 'infinite':
            out.append(('S-matrix at another impedance', meth(ev, o, 'getS', f, Zbase=z2), ref(z2)))
        return out
    law(ck, 'arc', how, fclass(ck, 'rfArcObj', 'get1S'), go)


# ----------------------------------------------------------------- coupler
def line_S(ev, Zc, ep, z):
    """S at z of a line with characteristic impedance Zc and ep = exp(gamma L)"""
    F, m = ev.F, E_(ev)
    em = F.inv(F.num(ep))
    ch, sh = m.div(m.add(ep, em), 2), m.div(F.sub(F.num(ep), em), 2)
    # V1 = ch V2 - Zc sh I2 ; I1 = sh/Zc V2 - ch I2
    return S_from_eqs(ev, z, [(1, 0, m.neg(ch), m.mul(Zc, sh)), (0, 1, m.neg(m.div(sh, Zc)), ch)])


def r_coupler(ck, size, coup):
    def go(ev):
        setup(ev)
        F, m = ev.F, E_(ev)
        z1, z2, f = ev.sym('Z1', pos='+'), ev.sym('Z2', pos='+'), freq(ev)
        kw = {}
        c0 = F.num(299792458)
        if size == 'Lc':
            kw['Lc'] = ev.sym('Lc', pos='+')
            th = m.div(m.mul(2, F.pi, f, kw['Lc']), c0)
        elif size == 'f0Hz':
            kw['f0Hz'] = ev.sym('fc', pos='+')
            th = m.div(m.mul(F.pi, f), m.mul(2, kw['f0Hz']))
        elif size == 'dc':
            th, f = m.div(F.pi, 2), 0
        else:
            th = m.div(F.pi, 2)
        if coup == 'kc':
            k = kw['kc'] = ev.sym('kc', pos='+')
        elif coup == 'kcdB':
            kw['kcdB'] = ev.sym('kcdB', pos='+')
            k = F.exp(m.mul(F.log(F.num(10)), m.div(m.neg(kw['kcdB']), 20)))
        elif coup == 'negative kcdB':
            d = ev.sym('kcdB', pos='+')
            kw['kcdB'] = m.neg(d)
            k = F.exp(m.mul(F.log(F.num(10)), m.div(m.neg(d), 20)))
        else:
            k = F.sqrt(m.div(1, 2))
        o = ev.construct(ev.pkg.cls('rfCoupler'), [], dict(kw, Zbase=z1))
        got = meth(ev, o, 'getS', f)
        s = F.sqrt(F.sub(F.num(1), F.mul(k, k)))
        ep = F.exp(m.mul(m.j(), th))
        # even and odd mode impedance of matched coupled lines, times z1
        Ze, Zo = m.div(m.mul(z1, m.add(1, k)), s), m.div(m.mul(z1, F.sub(F.num(1), k)), s)
        Se, So = line_S(ev, Ze, ep, z1).flat, line_S(ev, Zo, ep, z1).flat
        P = [m.div(m.add(a, b), 2) for a, b in zip(Se, So)]     # same strip
        Q = [m.div(F.sub(a, b), 2) for a, b in zip(Se, So)]     # other strip
        want = Arr([P[0], P[1], Q[0], Q[1],
                    P[2], P[3], Q[2], Q[3],
                    Q[0], Q[1], P[0], P[1],
                    Q[2], Q[3], P[2], P[3]], (4, 4))
        return [('S-matrix', got, want),
                ('S-matrix at another impedance', meth(ev, o, 'getS', f, Zbase=z2), R(ev).convert(z2, want, z1))]
    law(ck, 'coupler', f'{size}, {coup}', fclass(ck, 'rfCoupler', 'get1S'), go)


# ------------------------------------------------------------------- lines
LINES = {
    'Z0TL': ('Z0TL',), 'Z0TL+epsr': ('Z0TL', 'epsr'), 'LTL+CTL': ('LTL', 'CTL'),
    'all': ('LTL', 'CTL', 'rTL', 'gTL'), 'r only': ('LTL', 'CTL', 'rTL'), 'g only': ('LTL', 'CTL', 'gTL'),
    'vr': ('Z0TL', 'vr'), 'vr+r': ('Z0TL', 'vr', 'rTL'),
}


def line_zy(ev, v, f):
    """series impedance and shunt admittance per metre"""
    m, F = E_(ev), ev.F
    jw = m.jw(f)
    c0 = F.num(299792458)
    if 'LTL' in v:
        L, C = v['LTL'], v['CTL']
    else:
        vr = v['vr'] if 'vr' in v else m.div(1, F.sqrt(v['epsr'])) if 'epsr' in v else F.num(1)
        L, C = m.div(v['Z0TL'], m.mul(c0, vr)), m.div(1, m.mul(v['Z0TL'], c0, vr))
    return m.add(v.get('rTL', 0), m.mul(jw, L)), m.add(v.get('gTL', 0), m.mul(jw, C))


def trl(ev, names, **kw):
    v = vals(ev, names)
    z1 = ev.sym('Z1', pos='+')
    o = ev.construct(ev.pkg.cls('rfTRL'), [], dict(v, Zbase=z1, **kw))
    return o, v, z1


def r_line(ck, nm):
    def go(ev):
        setup(ev)
        F = ev.F
        L, f, z2 = ev.sym('Len', pos='+'), freq(ev), ev.sym('Z2', pos='+')
        o, v, z1 = trl(ev, LINES[nm], L=L)
        zz, yy = line_zy(ev, v, f)
        g = F.sqrt(F.mul(zz, yy))
        want = line_S(ev, F.div(zz, g), F.exp(F.mul(g, L)), z1)
        return [('S-matrix', meth(ev, o, 'getS', f), want),
                ('S-matrix at another impedance', meth(ev, o, 'getS', f, Zbase=z2), R(ev).convert(z2, want, z1))]
    law(ck, 'line', f'{nm}', fclass(ck, 'rfTRL', 'solveVI'), go)


def r_line_set(ck, how):
    def go(ev):
        setup(ev)
        F = ev.F
        L, f = ev.sym('Len', pos='+'), freq(ev)
        o, v, z1 = trl(ev, ('LTL', 'CTL'), L=ev.sym('Lold', pos='+'))
        meth(ev, o, 'getS', f)
        if how == 'set':
            meth(ev, o, 'set', L=L)
            got = meth(ev, o, 'getS', f)
        else:
            got = meth(ev, o, 'getS', f, params={'L': L})
        zz, yy = line_zy(ev, v, f)
        g = F.sqrt(F.mul(zz, yy))
        return [('S-matrix', got, line_S(ev, F.div(zz, g), F.exp(F.mul(g, L)), z1))]
    law(ck, 'line', f'length by {how}', fclass(ck, 'rfTRL', 'solveVI'), go)


def r_line_special(ck, nm, what):
    """zero length or zero frequency"""
    def go(ev):
        setup(ev)
        F, m = ev.F, E_(ev)
        L = 0 if what == 'zero length' else ev.sym('Len', pos='+')
        f = freq(ev) if what == 'zero length' else 0
        o, v, z1 = trl(ev, LINES[nm], L=L)
        if what == 'zero length':
            want = S_from_eqs(ev, z1, [(1, 0, -1, 0), (0, 1, 0, 1)])
        else:
            r, g = v.get('rTL', F.num(0)), v.get('gTL', F.num(0))
            if 'rTL' in v and 'gTL' in v:
                gm = F.sqrt(F.mul(r, g))
                want = line_S(ev, F.div(r, gm), F.exp(F.mul(gm, L)), z1)
            else:
                want = S_from_eqs(ev, z1, [(1, 0, -1, m.mul(r, L)), (0, 1, m.neg(m.mul(g, L)), 1)])
                # V1 = V2 - r L I2 ; I1 = g L V2 - I2
        return [('S-matrix', meth(ev, o, 'getS', f), want)]
    law(ck, 'line', f'{nm}, {what}', fclass(ck, 'rfTRL', 'solveVI'), go)


def r_profile(ck, nm, dx):
    def go(ev):
        setup(ev)
        F, m = ev.F, E_(ev)
        L, f = ev.sym('Len', pos='+'), freq(ev)
        kw = {'dx': {'fraction': 12, 'float': ev.sym('dx', pos='+'), 'default': None}[dx]}
        if dx == 'default':
            kw = {}
        o, v, z1 = trl(ev, LINES[nm], L=L, **kw)
        V0, I0 = ev.sym('V0', 'complex'), ev.sym('I0', 'complex')
        xs, V, I = meth(ev, o, 'solveVI', f, V0=V0, I0=I0)
        zz, yy = line_zy(ev, v, f)
        g = F.sqrt(F.mul(zz, yy))
        Zc = F.div(zz, g)
        xs, V, I = (ev.asarr(a).flat for a in (xs, V, I))
        out = [('first position', xs[0], F.num(0)), ('last position', xs[-1], L),
               ('number of values', [len(V), len(I)], [len(xs)] * 2)]
        for k, x in enumerate(xs):
            ep = F.exp(F.mul(g, F.num(x)))
            em = F.inv(ep)
            ch, sh = m.div(m.add(ep, em), 2), m.div(F.sub(ep, em), 2)
            out.append((f'V at node {k}', V[k], m.add(m.mul(ch, V0), m.mul(Zc, sh, I0))))
            out.append((f'I at node {k}', I[k], m.add(m.mul(ch, I0), m.mul(m.div(sh, Zc), V0))))
        return out
    law(ck, 'profile', f'{nm}, step {dx}', fclass(ck, 'rfTRL', 'solveVI'), go)


def r_profile_waves(ck, own):
    """VISWs: profile belonging to incident waves at both ports"""
    def go(ev):
        setup(ev)
        F, m = ev.F, E_(ev)
        L, f = ev.sym('Len', pos='+'), freq(ev)
        o, v, z1 = trl(ev, LINES['all'], L=L, ports=['q', 'r'])
        z = z1 if own else ev.sym('Z2', pos='+')
        E = {'q': ev.sym('Eq', 'complex'), 'r': ev.sym('Er', 'complex')}
        xs, (V, I, _) = meth(ev, o, 'VISWs', f, dict(E), *([] if own else [z]))
        zz, yy = line_zy(ev, v, f)
        g = F.sqrt(F.mul(zz, yy))
        S = line_S(ev, F.div(zz, g), F.exp(F.mul(g, L)), z).flat
        b = [m.add(m.mul(S[0], E['q']), m.mul(S[1], E['r'])), m.add(m.mul(S[2], E['q']), m.mul(S[3], E['r']))]
        V, I = ev.asarr(V).flat, ev.asarr(I).flat
        out = [('V at the first port', V[0], m.add(E['q'], b[0])), ('V at the second port', V[-1], m.add(E['r'], b[1]))]
        # currents: towards the first port along the line
        out += [('I at the first port', I[0], m.neg(m.div(F.sub(E['q'], b[0]), z))),
                ('I at the second port', I[-1], m.div(F.sub(E['r'], b[1]), z))]
        return out
    law(ck, 'profile', f'waves at {"own" if own else "another"} impedance', fclass(ck, 'rfTRL', 'VISWs'), go)


# --------------------------------------------------------------- non-uniform
def r_telegraph(ck, case):
    def go(ev):
        setup(ev)
        F, m = ev.F, E_(ev)
        L, f = ev.sym('Len', pos='+'), freq(ev)
        seen = []

        def odeint(ev, A, kws):
            fn, y0, xs = A[0], A[1], ev.asarr(A[2])
            x = ev.sym('x', pos='+')
            y = [ev.sym(f'y{k}', 'real') for k in range(4)]
            d = ev.apply(fn, [Arr(list(y), (4,)), x], {})
            k = len(seen)
            n = len(xs.flat)
            sol = ev.arr(f'sol{k}', (n, 4), 'real') if n < 40 else None
            if sol is None:
                ev.unk('too many nodes')
            start = list(ev.asarr(y0).flat)
            for c in range(4):
                sol.flat[c] = F.num(start[c])
            d = [q.flat[0] if isinstance(q, Arr) else q for q in
                 (ev.asarr(d).flat if isinstance(d, Arr) else list(d))]
            seen.append((x, y, d, start, sol, xs, dict(kws)))
            return sol
        ev.ext['scipy.integrate.odeint'] = odeint
        # one parameter given by its values at both ends or at given positions
        a, b = ev.sym('pa', pos='+'), ev.sym('pb', pos='+')
        p = {'ends': [a, b], 'table': [[F.num(0), L], [a, b]]}[case[1]]
        v = vals(ev, [n for n in ('LTL', 'CTL', 'rTL', 'gTL') if n != case[0]])
        z1 = ev.sym('Z1', pos='+')
        o = ev.construct(ev.pkg.cls('rfTRL'), [], dict(v, **{case[0]: p}, Zbase=z1, L=L, dx=m.div(L, 3)))
        V0, I0 = ev.sym('V0', 'complex'), ev.sym('I0', 'complex')
        S = meth(ev, o, 'getS', f)
        xs, V, I = meth(ev, o, 'solveVI', f, V0=V0, I0=I0)
        if len(seen) != 2:
            ev.unk(f'{len(seen)} integrations of the telegraphist\'s equation instead of 2')
        jw = m.jw(f)
        out = []
        par = ev.getattr(ev.getattr(o, 'TLP'), case[0])
        starts = []
        for x, y, d, start, sol, xn, kws in seen:
            q = ev.apply(par, [m.mul(2, F.pi, f), x], {})
            v2 = dict(v, **{case[0]: q.flat[0] if isinstance(q, Arr) else q})
            ii = m.j()
            V_, I_ = m.add(y[0], m.mul(ii, y[1])), m.add(y[2], m.mul(ii, y[3]))
            zz = m.add(v2['rTL'], m.mul(jw, v2['LTL']))
            yy = m.add(v2['gTL'], m.mul(jw, v2['CTL']))
            dV, dI = m.mul(zz, I_), m.mul(yy, V_)
            out += [('dV/dx', m.add(d[0], m.mul(ii, d[1])), dV), ('dI/dx', m.add(d[2], m.mul(ii, d[3])), dI)]
            starts.append(start)
        st = []
        for s_ in starts:
            st.append([m.add(s_[0], m.mul(m.j(), s_[1])), m.add(s_[2], m.mul(m.j(), s_[3]))])
        if F.sub(F.mul(st[0][0], st[1][1]), F.mul(st[0][1], st[1][0])).fp == (0, 0):
            return out + [('independent start vectors', False, True)]
        start = Arr([st[0][0], st[1][0], st[0][1], st[1][1]], (2, 2))

        def vi(k):
            """the matrix that takes (V, I) at the start to node k"""
            c = []
            for s_ in seen:
                q = s_[4].flat[4 * k:4 * k + 4]
                c.append([m.add(q[0], m.mul(m.j(), q[1])), m.add(q[2], m.mul(m.j(), q[3]))])
            M = Arr([c[0][0], c[1][0], c[0][1], c[1][1]], (2, 2))
            return R(ev).mm(M, R(ev).inv(start)).flat
        n = len(seen[0][5].flat)
        V10, V01, I10, I01 = vi(n - 1)
        # state at port 1: V1, -I1 (current runs towards port 1); at port 2: V2, I2
        want = S_from_eqs(ev, z1, [(V10, m.neg(V01), -1, 0), (I10, m.neg(I01), 0, -1)])
        out.append(('S-matrix', S, want))
        xs, V, I = (ev.asarr(q).flat for q in (xs, V, I))
        for k in range(n):
            a1, a2, b1, b2 = vi(k)
            out.append((f'V at node {k}', V[k], m.add(m.mul(a1, V0), m.mul(a2, I0))))
            out.append((f'I at node {k}', I[k], m.add(m.mul(b1, V0), m.mul(b2, I0))))
        return out
    law(ck, 'telegraph', f'{case[0]} given by {case[1]}', fclass(ck, 'rfTRL', 'solveVI'), go)


def run(ck):
    for c, ms in (('rfRLC', ('getS', 'set')), ('rfArcObj', ('get1S',)), ('rfCoupler', ('get1S',)),
                  ('rfTRL', ('solveVI', 'getS', 'VISWs'))):
        for m in ms:
            ck.anchor(f'{c}.{m}', fclass(ck, c, m) is not None)
    subs = [s for n in range(7) for s in itertools.combinations(COMP, n)]
    ck.pmap('rlc', r_rlc, [(s, False) for s in subs])
    ck.pmap('rlc-dc', r_rlc, [(s, True) for s in subs])
    ck.pmap('rlc', r_rlc_set, [(n, h) for n in COMP for h in ('set', 'params')])
    ck.rule('rlc', r_rlc_default_z)
    ck.pmap('arc', r_arc, [(h,) for h in ('keyword', 'positional', 'open', 'infinite', 'dc', 'set')])
    ck.pmap('coupler', r_coupler, [(s, c) for s in ('Lc', 'f0Hz', 'quarter wave', 'dc')
                                   for c in ('kc', 'kcdB', 'negative kcdB', 'default')])
    ck.pmap('line', r_line, [(n,) for n in LINES])
    ck.pmap('line', r_line_set, [('set',), ('params',)])
    ck.pmap('line', r_line_special, [(n, w) for n in LINES for w in ('zero length', 'zero frequency')])
    ck.pmap('profile', r_profile, [(n, d) for n in ('Z0TL', 'all') for d in ('default', 'fraction', 'float')])
    ck.pmap('profile', r_profile_waves, [(True,), (False,)])
    ck.pmap('telegraph', r_telegraph, [((n, h),) for n in ('LTL', 'CTL', 'rTL', 'gTL') for h in ('ends', 'table')])
