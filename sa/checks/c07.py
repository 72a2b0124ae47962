"""C07: network representation conversions follow one set of wave definitions."""
from ..aev import Arr, AbsRaise
from ..laws import law, R, call, meth, stack
from ..models import make, setup, freq, KINDS

META = {
    'explanation': 'Value numbering over complex matrix expressions: every conversion of the package is evaluated '
                   'abstractly on matrices of symbols (one value number per class of equal expressions, with trace '
                   'partitioning on undetermined branches and coinciding symbols) and its entries are compared with '
                   'the value numbers of the reference formulas that follow from the documented definitions of the '
                   'incident and reflected waves. A round trip has to return the value numbers it started from.',
    'rules': {
        'definition': 'S, Z, Y and V/I conversions have the value numbers of the reference formula, for every rank of '
                      'input, every port impedance form and wave type, and for coinciding impedances',
        'round-trip': 'converting there and back gives the value numbers one started from',
        'default': 'the documented default reference impedance is the same in both directions',
        'asked': 'every kind of object returns its own matrix converted to the impedance asked for, and its own '
                 'matrix when asked for its own impedance',
        'table': 'renormalising a table changes matrices and reference impedance together',
        'reject': 'an unknown wave type or an impedance of the wrong shape is refused',
    },
    'assumptions': ['2- and 3-port matrices and stacks of two frequencies stand for all sizes',
                    'impedances are positive (complex ones have a positive real part)',
                    'scipy.interpolate.interp1d is an uninterpreted function that reproduces its samples'],
    'technique': 'abstract interpretation of the conversion functions over value numbers (global value numbering with '
                 'trace partitioning)',
}

RANKS = {0: (), 1: (2,), 2: (2, 2), 3: (2, 2, 2)}


def mats(ev, name, rank, **k):
    """input of that rank and its matrices"""
    if rank == 0:
        x = ev.sym(name, 'complex')
        return x, [Arr([x], (1, 1))]
    a = ev.arr(name, RANKS[rank], **k)
    if rank == 1:
        return a, [Arr([x], (1, 1)) for x in a.flat]
    if rank == 2:
        return a, [a]
    return a, [ev.getitem(a, i) for i in range(a.shape[0])]


def back(ev, rank, ms):
    """reference result in the rank of the input"""
    if rank == 0:
        return ms[0].flat[0]
    if rank == 1:
        return Arr([m.flat[0] for m in ms], (len(ms),))
    if rank == 2:
        return ms[0]
    return stack(ev, ms)


def elementary(ck, name, rank):
    """S_from_Z and its kin"""
    f = ck.pkg.func(name)

    def go(ev):
        x, ms = mats(ev, 'M', rank)
        z = ev.sym('Zbase', pos='+')
        r = getattr(R(ev), name)
        got = call(ev, f, x, z)
        gotk = call(ev, f, x, Zbase=z)
        want = back(ev, rank, [r(m, z) for m in ms])
        return [('result', got, want), ('result with Zbase given by keyword', gotk, want)]
    law(ck, 'definition', f'{name}|rank {rank}', f, go)


PAIRS = [('S_from_Z', 'Z_from_S'), ('Z_from_S', 'S_from_Z'), ('S_from_Y', 'Y_from_S'), ('Y_from_S', 'S_from_Y')]


def elementary_round(ck, a, b, rank, default):
    f, g = ck.pkg.func(a), ck.pkg.func(b)

    def go(ev):
        x, _ = mats(ev, 'M', rank)
        k = {} if default else {'Zbase': ev.sym('Zbase', pos='+')}
        return [('value', call(ev, g, call(ev, f, x, **k), **k), x)]
    law(ck, 'default' if default else 'round-trip', f'{b} of {a}|rank {rank}', g, go)


def elementary_list(ck, name):
    """a nested list is as good as an array"""
    f = ck.pkg.func(name)

    def go(ev):
        a = ev.arr('M', (2, 2))
        z = ev.sym('Zbase', pos='+')
        return [('result', call(ev, f, a.tolist(), z), getattr(R(ev), name)(a, z))]
    law(ck, 'definition', f'{name}|nested list', f, go)


def routes(ck):
    """S -> Z -> Y -> S against the direct ones"""
    p = ck.pkg
    fs = {n: p.func(n) for n in ('S_from_Z', 'Z_from_S', 'S_from_Y', 'Y_from_S')}

    def go(ev):
        Z = ev.arr('Z', (2, 2))
        z = ev.sym('Zbase', pos='+')
        Y = R(ev).inv(Z)
        return [('S_from_Y(1/Z) against S_from_Z(Z)', call(ev, fs['S_from_Y'], Y, z), call(ev, fs['S_from_Z'], Z, z)),
                ('Y_from_S(S_from_Z(Z)) against 1/Z', call(ev, fs['Y_from_S'], call(ev, fs['S_from_Z'], Z, z), z), Y)]
    law(ck, 'definition', 'S-Z-Y routes', fs['S_from_Y'], go)
    cg = p.func('ConvertGeneral')

    def go2(ev):
        Z = ev.arr('Z', (2, 2))
        z, z2 = ev.sym('z1', pos='+'), ev.sym('z2', pos='+')
        return [('ConvertGeneral(z2, S_from_Z(Z, z1), z1) against S_from_Z(Z, z2)',
                 call(ev, cg, z2, call(ev, fs['S_from_Z'], Z, z), z), call(ev, fs['S_from_Z'], Z, z2)),
                ('S_from_Y(Y, z2)', call(ev, cg, z2, call(ev, fs['S_from_Y'], Z, z), z),
                 call(ev, fs['S_from_Y'], Z, z2))]
    law(ck, 'definition', 'renormalisation against Z and Y routes', cg, go2)


def from_vi(ck):
    f = ck.pkg.func('S_from_VI')

    def go(ev):
        M = ev.arr('M', (2, 2))
        z = ev.sym('Z0', pos='+')
        r = R(ev)
        # V2 = M00 V1 + M01 J, I2 = M10 V1 + M11 J with J = -I1;
        # V = a + b, z I = a - b at both ports  =>  P b = Q a
        m00, m01, m10, m11 = M.flat
        F = ev.F
        one, zero = F.num(1), F.num(0)
        # eq 1: a2 + b2 - m00 (a1 + b1) + m01/z (a1 - b1) = 0
        # eq 2: (a2 - b2)/z - m10 (a1 + b1) + m11/z (a1 - b1) = 0
        q01, q11 = F.div(m01, z), F.div(m11, z)
        iz = F.inv(z)
        A = Arr([F.sub(q01, m00), one, F.sub(q11, m10), iz], (2, 2))
        B = Arr([F.neg(F.add(m00, q01)), one, F.neg(F.add(m10, q11)), F.neg(iz)], (2, 2))
        S = r.mm(r.inv(B), r.mul(A, F.num(-1)))
        return [('result', call(ev, f, M, z), S), ('from a nested list', call(ev, f, M.tolist(), z), S)]
    law(ck, 'definition', 'S_from_VI', f, go)

    def go2(ev):
        # ABCD matrix of a series impedance Zs and of a shunt admittance Yp
        F = ev.F
        zs, z = ev.sym('Zs', 'complex'), ev.sym('Z0', pos='+')
        M = Arr([F.num(1), zs, F.num(0), F.num(1)], (2, 2))
        q = F.inv(F.add(zs, F.mul(F.num(2), z)))
        rfl, tr = F.mul(zs, q), F.mul(F.mul(F.num(2), z), q)
        return [('series impedance', call(ev, f, M, z), Arr([rfl, tr, tr, rfl], (2, 2)))]
    law(ck, 'definition', 'S_from_VI|series impedance', f, go2)

    def go3(ev):
        return [('', call(ev, f, ev.arr('M', (2, 3)), ev.sym('Z0', pos='+')), None)]
    law(ck, 'reject', 'S_from_VI|2x3 matrix', f, go3, raises='ValueError')


def zform(ev, name, form, n, nf, cpx):
    """port impedance argument and the list of port impedances per frequency"""
    k = 'complex' if cpx else 'real'
    if form == 'scalar':
        z = ev.sym(name, k, '+')
        return z, [[z] * n] * nf
    if form == 'per port':
        l = [ev.sym(f'{name}{i}', k, '+') for i in range(n)]
        return list(l), [l] * nf
    l = [[ev.sym(f'{name}{i}{j}', k, '+') for j in range(n)] for i in range(nf)]
    return [list(x) for x in l], l


def general(ck, t1, t2, form1, form2, rank):
    f = ck.pkg.func('ConvertGeneral')
    n = 1 if rank < 2 else 2
    nf = 2 if rank in (1, 3) else 1

    def go(ev):
        x, ms = mats(ev, 'S', rank)
        z1, l1 = zform(ev, 'z1', form1, n, nf, t1 == 'G')
        z2, l2 = zform(ev, 'z2', form2, n, nf, t2 == 'G')
        want = back(ev, rank, [R(ev).convert(b, m, a, t2, t1) for m, a, b in zip(ms, l1, l2)])
        out = [('result', call(ev, f, z2, x, z1, t1, t2), want)]
        bk = call(ev, f, z1, call(ev, f, z2, x, z1, type1=t1, type2=t2), z2, type1=t2, type2=t1)
        out.append(('there and back', bk, x))
        return out
    law(ck, 'definition', f'ConvertGeneral|{t1}->{t2}, Z1 {form1}, Z2 {form2}, S rank {rank}', f, go, limit=40)


def general_same(ck, t, form, rank):
    f = ck.pkg.func('ConvertGeneral')
    n = 1 if rank < 2 else 2
    nf = 2 if rank in (1, 3) else 1

    def go(ev):
        x, _ = mats(ev, 'S', rank)
        z, _ = zform(ev, 'z', form, n, nf, t == 'G')
        return [('result', call(ev, f, z, x, z, t, t), x)]
    law(ck, 'round-trip', f'ConvertGeneral to the same impedance|{t}, {form}, rank {rank}', f, go)


def general_default(ck):
    f = ck.pkg.func('ConvertGeneral')

    def go(ev):
        S = ev.arr('S', (2, 2))
        z1, z2 = ev.sym('z1', pos='+'), ev.sym('z2', pos='+')
        return [('voltage waves are the default', call(ev, f, z2, S, z1), R(ev).convert(z2, S, z1, 'V', 'V')),
                ('three port', call(ev, f, z2, ev.arr('T', (3, 3)), z1), R(ev).convert(z2, ev.arr('T', (3, 3)), z1)),
                ('chain of two', call(ev, f, z2, call(ev, f, ev.sym('z3', pos='+'), S, z1), ev.sym('z3', pos='+')),
                 R(ev).convert(z2, S, z1, 'V', 'V'))]
    law(ck, 'definition', 'ConvertGeneral|defaults, 3 ports, chain', f, go)
    for what, args in (('type1', dict(type1='X')), ('type2', dict(type2='X'))):
        def bad(ev, args=args):
            return [('', call(ev, f, ev.sym('z2', pos='+'), ev.arr('S', (2, 2)), ev.sym('z1', pos='+'), **args), None)]
        law(ck, 'reject', f'ConvertGeneral|unknown {what}', f, bad, raises='ValueError')
    for what, za, zb in (('Z1', (3,), ()), ('Z2', (), (3,)), ('Z1 2D', (3, 2), ()), ('Z2 2D', (), (2, 3))):
        def badz(ev, za=za, zb=zb):
            z1 = ev.arr('z1', za, 'real', '+') if za else ev.sym('z1', pos='+')
            z2 = ev.arr('z2', zb, 'real', '+') if zb else ev.sym('z2', pos='+')
            return [('', call(ev, f, z2, ev.arr('S', (2, 2, 2)), z1), None)]
        law(ck, 'reject', f'ConvertGeneral|{what} of the wrong size', f, badz, raises='ValueError')


def asked(ck, kind):
    """every kind of object honours Zbase"""
    c = ck.pkg.cls(kind)
    f = c.find('getS') if c else None

    def go(ev):
        o = make(ev, kind)
        z1, z2, fr = ev.sym('Z1', pos='+'), ev.sym('Z2', pos='+'), freq(ev)
        S = meth(ev, o, 'getS', fr)
        conv = R(ev).convert(z2, S, z1)
        S2 = meth(ev, o, 'getS', fr, Zbase=z2)
        again0 = meth(ev, o, 'getS', fr)
        own = meth(ev, o, 'getS', fr, Zbase=z1)
        again = meth(ev, o, 'getS', fr)
        sw = meth(ev, o, 'getS', [fr, freq(ev, 1)], Zbase=z2)
        back_ = meth(ev, o, 'getS', fr, Zbase=ev.sym('Z3', pos='+'))
        return [('referred to another impedance', S2, conv), ('asked for its own impedance', own, S),
                ('without impedance, after another one was asked for', again0, S),
                ('without impedance, after its own was asked for', again, S),
                ('reference impedance afterwards', ev.getattr(o, 'Zbase'), z1),
                ('in a sweep', ev.getitem(sw, 0), conv),
                ('referred to a third impedance afterwards', back_, R(ev).convert(ev.sym('Z3', pos='+'), S, z1))]
    law(ck, 'asked', f'{kind}.getS', f, go, limit=60)


def asked_interp(ck, how):
    """interpolated table values are converted too"""
    c = ck.pkg.cls('rfObject')
    f = c.find('getS') if c else None

    def go(ev):
        o = make(ev, 'rfObject', interp=how)
        z1, z2, fr = ev.sym('Z1', pos='+'), ev.sym('Z2', pos='+'), ev.sym('fq', pos='+')
        S = meth(ev, o, 'getS', fr)
        return [('referred to another impedance', meth(ev, o, 'getS', fr, Zbase=z2), R(ev).convert(z2, S, z1)),
                ('in a sweep', ev.getitem(meth(ev, o, 'getS', [fr, fr], Zbase=z2), 1), R(ev).convert(z2, S, z1))]
    law(ck, 'asked', f'rfObject.getS|interpolated {how}', f, go, limit=60)


def table(ck):
    c = ck.pkg.cls('rfObject')
    if not ck.anchor('rfObject', c is not None):
        return
    f = c.find('convert2newZbase')

    def go(ev):
        o = make(ev, 'rfObject')
        z1, z2 = ev.sym('Z1', pos='+'), ev.sym('Z2', pos='+')
        fr, ff = freq(ev), freq(ev, 1)
        S = [meth(ev, o, 'getS', x) for x in (fr, ff)]
        ref = meth(ev, o, 'getS', fr, Zbase=ev.sym('Z3', pos='+'))
        meth(ev, o, 'convert2newZbase', z2)
        return [('matrix at the new impedance', meth(ev, o, 'getS', fr), R(ev).convert(z2, S[0], z1)),
                ('second matrix', meth(ev, o, 'getS', ff), R(ev).convert(z2, S[1], z1)),
                ('reference impedance', ev.getattr(o, 'Zbase'), z2),
                ('the network itself is the same', meth(ev, o, 'getS', fr, Zbase=ev.sym('Z3', pos='+')), ref)]
    law(ck, 'table', 'rfObject.convert2newZbase', f, go)
    for nm in ('S_from_Z', 'S_from_Y'):
        def go2(ev, nm=nm):
            o = make(ev, 'rfObject')
            M = ev.arr('M', (2, 2))
            return [('own impedance', meth(ev, o, nm, M), getattr(R(ev), nm)(M, ev.sym('Z1', pos='+')))]
        law(ck, 'table', f'rfObject.{nm}', c.find(nm), go2)


def run(ck):
    p = ck.pkg
    names = ('S_from_Z', 'S_from_Y', 'Z_from_S', 'Y_from_S')
    for n in names + ('S_from_VI', 'ConvertGeneral'):
        ck.anchor(n, p.func(n) is not None)
    ck.pmap('definition', elementary, [(n, r) for n in names for r in RANKS])
    ck.pmap('definition', elementary_list, [(n,) for n in names])
    ck.pmap('round-trip', elementary_round, [(a, b, r, d) for a, b in PAIRS for r in RANKS for d in (False, True)])
    ck.rule('definition', routes)
    ck.rule('definition', from_vi)
    forms = ('scalar', 'per port', 'per frequency')
    combos = []
    for t1 in 'VPG':
        for t2 in 'VPG':
            for rank in RANKS:
                combos.append((t1, t2, 'scalar', 'scalar', rank))
            for a in forms:
                for b in forms:
                    if (a, b) != ('scalar', 'scalar') and (ck.tier == 'thorough' or t1 == t2 or a == b):
                        combos.append((t1, t2, a, b, 3))
                        if 'per frequency' not in (a, b):
                            combos.append((t1, t2, a, b, 2))
    ck.pmap('definition', general, combos)
    ck.pmap('round-trip', general_same, [(t, a, r) for t in 'VPG' for a in forms for r in RANKS])
    ck.rule('definition', general_default)
    ck.pmap('asked', asked, [(k,) for k in KINDS])
    ck.pmap('asked', asked_interp, [(h,) for h in ('MA', 'dB', 'RI')])
    ck.rule('table', table)
