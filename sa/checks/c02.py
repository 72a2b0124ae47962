"""C02: element and table results are never served from an outdated cache."""
import ast

from ..aev import Arr, Obj, Ref, AbsRaise
from ..laws import law, meth, call
from ..models import make, setup, freq, build, cls
from .c09 import fclass
from .c13 import E, plain, base

META = {
    'explanation': 'Staleness analysis over value numbers: an element or table is evaluated in some way (S-matrices, '
                   'interpolation, profiles, maximum voltages, printing), changed, perhaps evaluated and changed again, '
                   'and evaluated once more; a second object holds the changed data from the start. Anything kept from '
                   'before the change that finds its way into the result gives it another value number than that of '
                   'the second object.',
    'rules': {
        'element': 'after set() an element answers as one made with the new values',
        'params': 'values given with an evaluation are used by that evaluation',
        'table': 'after a change of a frequency table (entry added, assigned, replaced, ports sorted, renormalised, '
                 'de-embedded, file read again) values at and between the frequencies are those of the changed data',
        'memo': 'a profile is only reused for the same frequency, excitation and impedance',
    },
    'assumptions': ['one or two changes after up to three evaluations stand for all histories',
                    'scipy.interpolate.interp1d is an uninterpreted function of its data that reproduces its samples',
                    'the ODE solver is an uninterpreted function of its arguments'],
    'technique': 'abstract interpretation (dependence of results on state over value numbers, with trace partitioning)',
}


def fr(ev, k):
    return freq(ev, k)


BEFORE = {
    'nothing': lambda ev, o: None,
    'getS': lambda ev, o: meth(ev, o, 'getS', fr(ev, 0)),
    'sweep': lambda ev, o: meth(ev, o, 'getS', [fr(ev, 1), fr(ev, 0)]),
    'getS at another impedance': lambda ev, o: meth(ev, o, 'getS', fr(ev, 0), Zbase=ev.sym('Z9', pos='+')),
    'maxV': lambda ev, o: meth(ev, o, 'maxV', fr(ev, 0), E(ev, o)),
    'maxV elsewhere': lambda ev, o: meth(ev, o, 'maxV', fr(ev, 1), E(ev, o)),
    'copy': lambda ev, o: (meth(ev, o, 'getS', fr(ev, 0)), meth(ev, o, 'copy')),
}
TBEFORE = {
    'interpolation': lambda ev, o: meth(ev, o, 'getS', fr(ev, 2)),
    'interpolations': lambda ev, o: meth(ev, o, 'getS', [fr(ev, 2), fr(ev, 0), fr(ev, 5)]),
}

# kind -> change -> (how it is done, how it is done to a fresh object (None: constructor values))
SETS = {
    'rfTRL': ['L', 'Zbase', 'dx'],
    'rfTRL losses': ['L', 'Zbase', 'dx'],
    'rfTRL table': ['Zbase'],
    'rfRLC': ['Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp'],
    'rfRLC series': ['Rs', 'Cp'],
    'rfArcObj': ['Larc'],
}


def fresh(ev, kind, over):
    """the element made with the new values"""
    s = ev.sym
    if kind == 'rfTRL losses':
        return ev.construct(cls(ev, 'rfTRL'), [], dict(dict(L=s('L', pos='+'), LTL=s('LTL', pos='+'), CTL=s('CTL', pos='+'),
                                                            rTL=s('rTL', pos='+'), Zbase=s('Z1', pos='+')), **over))
    if kind == 'rfTRL table':
        t = build(ev, kind)[0]
        return ev.construct(cls(ev, 'rfTRL'), [], dict(dict(L=s('L', pos='+'), sNp=ev.getattr(t, 'sNp'), Zbase=s('Z1', pos='+')), **over))
    if kind == 'rfRLC series':
        return ev.construct(cls(ev, 'rfRLC'), [], dict(dict(Rs=s('Rs', pos='+'), Zbase=s('Z1', pos='+')), **over))
    return make(ev, kind, **over)


def new(ev, kw, k=0):
    if kw == 'dx':
        return (36, 48)[k]
    return ev.sym(f'new{kw}{k}', pos='+')


def answers(ev, o, q, what):
    if what == 'S':
        return [('S-matrix', meth(ev, o, 'getS', fr(ev, 0)), meth(ev, q, 'getS', fr(ev, 0))),
                ('S-matrix elsewhere', meth(ev, o, 'getS', fr(ev, 1)), meth(ev, q, 'getS', fr(ev, 1)))]
    a, b = (meth(ev, x, 'maxV', fr(ev, 0), E(ev, x)) for x in (o, q))
    return [('maximum', a[0], b[0]), ('profile', plain(a[2]), plain(b[2]))]


def r_element(ck, kind, kw, before, twice, what):
    def go(ev):
        ev.total = ev.F.loose_abs = True
        if kind == 'rfTRL table':
            # (between the frequencies of the table the order of interpolation and renormalisation matters)
            ev.freqs = {0: ev.F.num(40000000), 1: ev.F.num(41000000)}
        o = build(ev, kind)[0]
        BEFORE[before](ev, o)
        if twice:
            meth(ev, o, 'set', **{kw: new(ev, kw, 1)})
            BEFORE[before](ev, o)
        meth(ev, o, 'set', **{kw: new(ev, kw)})
        return answers(ev, o, fresh(ev, kind, {kw: new(ev, kw)}), what)
    law(ck, 'element', f'{kind}, {kw} after {before}{" twice" if twice else ""}, {what}', fclass(ck, base(kind), 'set'), go, limit=60)


def r_params(ck, kind, kw, before):
    def go(ev):
        ev.total = ev.F.loose_abs = True
        o = build(ev, kind)[0]
        BEFORE[before](ev, o)
        a = meth(ev, o, 'getS', fr(ev, 0), params={kw: new(ev, kw)})
        b = meth(ev, o, 'getS', fr(ev, 0), params={kw: new(ev, kw, 1)})
        return [('S-matrix with the first value', a, meth(ev, fresh(ev, kind, {kw: new(ev, kw)}), 'getS', fr(ev, 0))),
                ('S-matrix with the second value', b, meth(ev, fresh(ev, kind, {kw: new(ev, kw, 1)}), 'getS', fr(ev, 0)))]
    law(ck, 'params', f'{kind}, {kw} after {before}', fclass(ck, base(kind), 'getS'), go, limit=60)


# tables ------------------------------------------------------------------
def obj(ev, rows, ports=('p2', 'p1'), z=None, **k):
    setup(ev)
    o = ev.construct(cls(ev, 'rfObject'), [], dict(dict(ports=list(ports), Zbase=z or ev.sym('Z1', pos='+')), **k))
    for f, s in rows:
        meth(ev, o, 'setS', f, s)
    return o


def S(ev, k):
    return ev.arr(f'S{k}', (2, 2))


def rows(ev, *ks):
    return [(fr(ev, k), S(ev, k)) for k in ks]


def swap(ev, s):
    return ev.getitem(ev.getitem(s, (slice(None), [1, 0])), ([1, 0], slice(None)))


def conv(ev, s, z2):
    f = ev.pkg.func('ConvertGeneral')
    return call(ev, f, z2, s, ev.sym('Z1', pos='+'))


def line(ev, s, f):
    """the entry de-embedded by a fresh object"""
    o = obj(ev, [(f, s)])
    meth(ev, o, 'deembed', {'p2': ev.sym('len', pos='+')})
    return ev.getitem(ev.getattr(o, 'Ss'), 0)


TEXT = '! x\n# HZ S RI R 50\n'


def text(ev, ks, tag, more=False):
    t = TEXT
    for k in ks:
        t += f'{k}e7 ' + ' '.join(ev.text(ev.sym(f'{tag}{k}_{j}')) for j in range(8)) + '\n'
        if more:
            for w in ('Gamma !', 'Port Impedance'):
                t += f'! {w} ' + ' '.join(ev.text(ev.sym(f'{tag}{w[0]}{k}_{j}')) for j in range(4)) + '\n'
    return t


def z2(ev):
    return ev.sym('Z2', pos='+')


def assign(ev, o, f):
    """o[k] = f, S7 for the entry at the second frequency (the order of the entries is the object's affair)"""
    k = [j for j, e in enumerate(ev.iterate(o)) if ev.eq(ev.getitem(e, 0), fr(ev, 1))]
    meth(ev, o, '__setitem__', k[-1], (f, S(ev, 7)))


CHANGES = {
    # name: (change, entries the table holds afterwards, other differences)
    'entry added above': (lambda ev, o: meth(ev, o, 'setS', fr(ev, 3), S(ev, 3)), lambda ev: rows(ev, 0, 1, 3)),
    'two entries added': (lambda ev, o: meth(ev, o, 'setS', [fr(ev, 3), fr(ev, 4)], ev.callbuiltin('list', [[S(ev, 3), S(ev, 4)]], {})),
                          lambda ev: rows(ev, 0, 1, 3, 4)),
    'entry replaced': (lambda ev, o: meth(ev, o, 'setS', fr(ev, 0), S(ev, 7)), lambda ev: [(fr(ev, 0), S(ev, 7)), (fr(ev, 1), S(ev, 1))]),
    'entry assigned': (lambda ev, o: assign(ev, o, fr(ev, 1)),
                       lambda ev: [(fr(ev, 0), S(ev, 0)), (fr(ev, 1), S(ev, 7))]),
    'entry moved': (lambda ev, o: assign(ev, o, fr(ev, 3)),
                    lambda ev: [(fr(ev, 0), S(ev, 0)), (fr(ev, 3), S(ev, 7))]),
    'ports sorted': (lambda ev, o: meth(ev, o, 'sortports'), lambda ev: [(f, swap(ev, s)) for f, s in rows(ev, 0, 1)]),
    'ports ordered': (lambda ev, o: meth(ev, o, 'sortports', ['p1', 'p2']), lambda ev: [(f, swap(ev, s)) for f, s in rows(ev, 0, 1)]),
    'renormalised': (lambda ev, o: meth(ev, o, 'convert2newZbase', z2(ev)), lambda ev: [(f, conv(ev, s, z2(ev))) for f, s in rows(ev, 0, 1)]),
    'de-embedded': (lambda ev, o: meth(ev, o, 'deembed', {'p2': ev.sym('len', pos='+')}),
                    lambda ev: [(f, line(ev, s, f)) for f, s in rows(ev, 0, 1)]),
}


def r_table(ck, change, before, interp, what, second=None):
    def go(ev):
        ev.total = ev.F.loose_abs = True
        k = {'interp': interp} if interp else {}
        if 'two entries added' in (change, second):
            # (too many orders of symbolic frequencies)
            ev.freqs = {j: ev.F.num(v * 1000000) for j, v in enumerate((41, 40, 42, 50, 45, 47))}
        o = obj(ev, rows(ev, 0, 1), **k)
        {**BEFORE, **TBEFORE}[before](ev, o)
        do, data = CHANGES[change]
        if 'two entries added' in (change, second) and ev.eq(fr(ev, 3), fr(ev, 4)):
            return []       # one call with two matrices for the same frequency has no meaning
        fs = [fr(ev, k) for k in (0, 1, 3)]
        if change in ('entry replaced', 'entry moved', 'entry assigned') and (
                ev.eq(fs[0], fs[1]) or change == 'entry moved' and ev.eq(fs[0], fs[2])):
            return []       # two entries have that frequency
        do(ev, o)
        if second:
            {**BEFORE, **TBEFORE}[before](ev, o)
            CHANGES[second][0](ev, o)
            data = lambda ev: rows(ev, 0, 1, 3, 4)
        srt = change.startswith('ports')
        q = obj(ev, data(ev), ports=('p1', 'p2') if srt else ('p2', 'p1'), z=z2(ev) if change == 'renormalised' else None, **k)
        if what == 'interpolation':
            return [('value between', meth(ev, o, 'getS', fr(ev, 2)), meth(ev, q, 'getS', fr(ev, 2)))]
        if what == 'maxV':
            x = {p: ev.sym(f'E{p}', 'complex') for p in ('p1', 'p2')}
            a, b = (meth(ev, t, 'maxV', fr(ev, 0), dict(x)) for t in (o, q))
            return [('maximum', a[0], b[0]), ('profile', plain(a[2]), plain(b[2]))]
        fs = [f for f, _ in data(ev)]
        return [(f'S-matrix of entry {j}', meth(ev, o, 'getS', f), meth(ev, q, 'getS', f)) for j, f in enumerate(fs)] + [
            ('table, by iteration', sorted_rows(ev, o), sorted_rows(ev, q))]
    law(ck, 'table', f'{change}{" and " + second if second else ""} after {before}, {what}{", " + interp if interp else ""}',
        fclass(ck, 'rfObject', 'getS'), go, limit=80)


def sorted_rows(ev, o):
    return sorted(([str(ev.getitem(e, 0)), plain(ev.getitem(e, 1))] for e in ev.iterate(o)), key=lambda r: r[0])


def r_reread(ck, before, what, change, more=False):
    """a touchstone text read (again)"""
    def go(ev):
        ev.total = ev.F.loose_abs = True
        setup(ev)
        mk = lambda tag, ks: ev.construct(cls(ev, 'rfObject'), [], dict(ports=['p1', 'p2'], touchstone=text(ev, ks, tag, more), Zbase=50))
        o = mk('a', (1, 3))
        f = [ev.F.num(v) for v in (1e7, 3e7, 2e7, 5e7)]
        if before == 'getS':
            meth(ev, o, 'getS', f[0])
        elif before == 'interpolation':
            meth(ev, o, 'getS', f[2])
        if change == 'read again':
            meth(ev, o, 'read_tsf', text(ev, (1, 3, 5), 'b', more))
            q = mk('b', (1, 3, 5))
        else:
            g = f[3] if change == 'entry added' else ev.F.num(1e6) if change == 'entry added below' else f[0]
            meth(ev, o, 'setS', g, S(ev, 3))
            q = mk('a', (1, 3))
            meth(ev, q, 'setS', g, S(ev, 3))
        at = f[0] if what == 'entry' else f[2]
        out = [('S-matrix', meth(ev, o, 'getS', at), meth(ev, q, 'getS', at))]
        if what == 'entry' and change == 'entry replaced':
            out.append(('the new entry', meth(ev, o, 'getS', g), S(ev, 3)))
        if more:
            n = len(list(ev.iterate(ev.getattr(o, 'fs'))))
            out += [(f'number of {t}', ev.getattr(o, t).shape[0], n) for t in ('Ss', 'Zcs', 'Gms')]
        return out
    law(ck, 'table', f'{change} after {before}, {what}{", with port data" if more else ""}', fclass(ck, 'rfObject', 'read_tsf'), go, limit=60)


def r_base(ck, before):
    """the data of an rfBase are its attributes"""
    def go(ev):
        ev.total = ev.F.loose_abs = True
        o = make(ev, 'rfBase')
        BEFORE[before](ev, o)
        ev.setattr(o, 'Ss', ev.arr('T', (2, 2, 2)))
        q = make(ev, 'rfBase', Ss=ev.arr('T', (2, 2, 2)))
        return answers(ev, o, q, 'S') + answers(ev, o, q, 'maxV')
    law(ck, 'table', f'rfBase data assigned after {before}', fclass(ck, 'rfBase', 'getS'), go, limit=60)


# memo --------------------------------------------------------------------
OTHER = {
    'frequency': lambda ev, o: meth(ev, o, 'VISWs', fr(ev, 1), E(ev, o), ev.sym('Z7', pos='+')),
    'excitation': lambda ev, o: meth(ev, o, 'VISWs', fr(ev, 0), E(ev, o, 'D'), ev.sym('Z7', pos='+')),
    'excitation of one port': lambda ev, o: meth(ev, o, 'VISWs', fr(ev, 0), dict(E(ev, o), **{'2': ev.sym('D2', 'complex')}), ev.sym('Z7', pos='+')),
    'excitation exchanged': lambda ev, o: meth(ev, o, 'VISWs', fr(ev, 0), dict(zip(('2', '1'), E(ev, o).values())), ev.sym('Z7', pos='+')),
    'impedance': lambda ev, o: meth(ev, o, 'VISWs', fr(ev, 0), E(ev, o), ev.sym('Z8', pos='+')),
    'default impedance': lambda ev, o: meth(ev, o, 'VISWs', fr(ev, 0), E(ev, o)),
    'nothing': lambda ev, o: meth(ev, o, 'VISWs', fr(ev, 0), E(ev, o), ev.sym('Z7', pos='+')),
    'result changed': lambda ev, o: spoil(ev, meth(ev, o, 'VISWs', fr(ev, 0), E(ev, o), ev.sym('Z7', pos='+'))),
}


def spoil(ev, r):
    xs, (v, i, e) = r
    for a in (xs, v, i):
        ev.setitem(a, 0, ev.sym('spoilt'))
    for k in list(e):
        e[k] = ev.sym('spoilt')


def r_memo(ck, kind, other, twice, z):
    def go(ev):
        ev.total = ev.F.loose_abs = True
        o, q = build(ev, kind)[0], build(ev, kind)[0]
        k = [ev.sym('Z7', pos='+')] if z else []
        if twice:
            meth(ev, o, 'VISWs', fr(ev, 0), E(ev, o), *k)
        OTHER[other](ev, o)
        a, b = (meth(ev, x, 'VISWs', fr(ev, 0), E(ev, x), *k) for x in (o, q))
        return [('profile', plain(a), plain(b))]
    law(ck, 'memo', f'{kind}, another {other}{" between" if twice else ""}{"" if z else ", own impedance"}',
        fclass(ck, 'rfTRL', 'VISWs'), go, limit=60)


def run(ck):
    for k, ms in {'rfTRL': ('set', 'getS', 'VISWs', 'maxV'), 'rfRLC': ('set', 'getS'), 'rfArcObj': ('set', 'getS'),
                  'rfObject': ('setS', 'getS', '__setitem__', 'sortports', 'convert2newZbase', 'deembed', 'read_tsf', '_interp_'),
                  'rfBase': ('getS', 'set')}.items():
        for m in ms:
            ck.anchor(f'{k}.{m}', fclass(ck, k, m) is not None)
    ck.pmap('element', r_element, [(k, w, b, t, a) for k in SETS for w in SETS[k] for b in BEFORE for t in (False, True)
                                   for a in ('S', 'maxV') if (k, a) != ('rfTRL table', 'maxV')])
    # (the profile between the ports of a table is that of a line of the impedance it had when it was made)
    ck.pmap('params', r_params, [(k, w, b) for k in SETS for w in SETS[k] for b in ('nothing', 'getS', 'maxV')
                                 if not k.startswith('rfTRL')])
    tb = list(BEFORE) + list(TBEFORE)
    ck.pmap('table', r_table, [(c, b, i, w) for c in CHANGES for b in tb for i in (None, 'MA', 'RI')
                               for w in ('entries', 'interpolation', 'maxV') if not (i and w != 'interpolation')])
    ck.pmap('tables', r_table, [('entry added above', b, None, w, 'two entries added') for b in tb for w in ('entries', 'interpolation')])
    ck.pmap('reread', r_reread, [(b, w, c, m) for b in ('nothing', 'getS', 'interpolation') for w in ('entry', 'between')
                                 for c in ('read again', 'entry added', 'entry added below', 'entry replaced')
                                 for m in (False, True)])
    ck.pmap('base', r_base, [(b,) for b in BEFORE])
    ck.pmap('memo', r_memo, [(k, o, t, z) for k in ('rfTRL', 'rfTRL losses', 'rfTRL varying', 'rfTRL table') for o in OTHER
                             for t in (False, True) for z in (True, False)])
