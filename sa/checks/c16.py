"""C16: every RF object can serve as a circuit block."""
import ast

from ..aev import Arr, Obj, Ref, AbsRaise
from ..field import Num, Inf, Nan
from ..laws import law, meth, call
from ..models import make, setup, freq, KINDS, VARIANTS, build, cls
from .c09 import fclass

META = {
    'explanation': 'Conformance analysis by abstract interpretation: an object of every kind is put in every block '
                   'position of a circuit (alone, joined on either side, terminated, inside a nested circuit, as the '
                   'replacement of another block, with renamed ports) and the circuit is evaluated with the calls the '
                   'circuit really makes; the value numbers of the result are compared with those of the same circuit '
                   'holding the bare S-matrix of the object. Maximum-voltage results are followed into the helpers '
                   'that print, scale and plot them.',
    'rules': {
        'protocol': 'port names, size, positions and S-matrix of an object agree with each other',
        'place': 'a circuit holding the object equals the one holding its S-matrix',
        'replace': 'an object that replaces a block of a circuit, also at a deeper level, is evaluated in its place',
        'copy': 'a circuit with the object can be copied and printed and still evaluates to the same',
        'voltages': 'maximum voltages are real magnitudes with a place and profiles (positions, values) of equal length',
        'helpers': 'the print, scale and plot helpers accept the maximum-voltage result: all values are printed, scaled '
                   'in place and plotted against their positions',
    },
    'assumptions': ['one or two neighbours and up to two levels of nesting stand for all circuits',
                    'scipy.interpolate.interp1d is an uninterpreted function that reproduces its samples',
                    'the ODE solver is an uninterpreted function of its arguments',
                    'matplotlib does what it is told'],
    'technique': 'abstract interpretation (conformance of results by value numbering, with trace partitioning)',
}

ALL = KINDS + VARIANTS
BLOCKS = [k for k in ALL if k not in ('rfCircuit table',)]
NOT2 = ('rfArcObj', 'rfObject one port', 'rfObject three ports', 'rfCoupler', 'rfCircuit terminated')


def base(kind):
    return kind.split()[0]


def ports_of(ev, o):
    return list(ev.iterate(ev.getattr(o, 'ports')))


def real(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool) or isinstance(v, (Inf,)) or isinstance(v, Num) and v.real


def r_protocol(ck, kind, flat):
    def go(ev):
        ev.total = ev.F.loose_abs = True
        o, _ = build(ev, kind)
        z = ev.sym('Z2', pos='+')
        if flat:        # before anything has been evaluated
            pass
        else:
            meth(ev, o, 'getS', freq(ev, 0))
        p = ports_of(ev, o)
        n = ev.callbuiltin('len', [o], {})
        x = list(ev.iterate(ev.getattr(o, 'xpos')))
        s = meth(ev, o, 'getS', freq(ev, 0), Zbase=z, params={}, flags={})
        q = meth(ev, o, 'copy')
        return [('number of port names', len(p), n), ('port names are different texts', len({t for t in p if isinstance(t, str)}), n),
                ('number of positions', len(x), n), ('positions are real numbers', all(real(v) for v in x), True),
                ('shape of the S-matrix', s.shape if isinstance(s, Arr) else None, (n, n)),
                ('ports of a copy', ports_of(ev, q), p),
                ('positions of a copy', list(ev.iterate(ev.getattr(q, 'xpos'))), x),
                ('size of a copy', ev.callbuiltin('len', [q], {}), n),
                ('S-matrix of a copy', meth(ev, q, 'getS', freq(ev, 0), Zbase=z, params={}, flags={}), s)]
    law(ck, 'protocol', f'{kind}, {"new" if flat else "evaluated"}', fclass(ck, base(kind), 'getS'), go)


def rlc(ev, tag):
    return ev.construct(cls(ev, 'rfRLC'), [], dict(Rs=ev.sym('R' + tag, pos='+'), Cp=ev.sym('C' + tag, pos='+')))


def circ(ev, z='Z5'):
    return ev.construct(cls(ev, 'rfCircuit'), [], dict(Zbase=ev.sym(z, pos='+')))


def p_alone(ev, o, names):
    c = circ(ev)
    meth(ev, c, 'addblock', 'X', o, ports=names)
    return c


def p_front(ev, o, names):
    c = circ(ev)
    meth(ev, c, 'addblock', 'X', o, ports=names)
    meth(ev, c, 'addblock', 'N', rlc(ev, 'n'), ports=['s', 'p'])
    meth(ev, c, 'connect', f'X.{names[-1]}', 'N.s')
    return c


def p_back(ev, o, names):
    c = circ(ev)
    meth(ev, c, 'addblock', 'N', rlc(ev, 'n'), ports=['s', 'p'])
    meth(ev, c, 'addblock', 'X', o, ports=names, relpos=3)
    meth(ev, c, 'connect', 'N.p', f'X.{names[0]}', 'new')
    return c


def p_terminated(ev, o, names):
    c = circ(ev)
    meth(ev, c, 'addblock', 'N', rlc(ev, 'n'), ports=['s', 'p'])
    meth(ev, c, 'addblock', 'X', o, ports=names)
    meth(ev, c, 'terminate', f'X.{names[0]}', Z=ev.sym('Zt', 'complex'))
    return c


def p_nested(ev, o, names):
    i = circ(ev, 'Z6')
    meth(ev, i, 'addblock', 'X', o, ports=names)
    c = circ(ev)
    meth(ev, c, 'addblock', 'I', i)
    meth(ev, c, 'addblock', 'N', rlc(ev, 'n'), ports=['s', 'p'])
    meth(ev, c, 'connect', f'I.X.{names[-1]}', 'N.s')
    return c


def p_twice(ev, o, names):
    c = circ(ev)
    meth(ev, c, 'addblock', 'X', o, ports=names)
    meth(ev, c, 'addblock', 'Y', o, ports=names)
    meth(ev, c, 'connect', f'X.{names[0]}', f'Y.{names[-1]}')
    return c


PLACES = {'alone': p_alone, 'front': p_front, 'back': p_back, 'terminated': p_terminated, 'nested': p_nested, 'twice': p_twice}


def r_place(ck, kind, place, how):
    def go(ev):
        ev.total = ev.F.loose_abs = True
        o, _ = build(ev, kind)
        own = ports_of(ev, o)
        names = own if how == 'own names' else [f'q{k}' for k in range(len(own))]
        q, _ = build(ev, kind)
        s = meth(ev, q, 'getS', freq(ev, 0), Zbase=ev.sym('Z6' if place == 'nested' else 'Z5', pos='+'))
        c = PLACES[place](ev, o, {a: b for a, b in zip(own, names)} if how == 'map' and place == 'x' else names)
        d = PLACES[place](ev, s, names)
        return [('external ports', ports_of(ev, c), ports_of(ev, d)),
                ('S-matrix', meth(ev, c, 'getS', freq(ev, 0)), meth(ev, d, 'getS', freq(ev, 0))),
                ('S-matrix at another impedance', meth(ev, c, 'getS', freq(ev, 0), Zbase=ev.sym('Z2', pos='+')),
                 meth(ev, d, 'getS', freq(ev, 0), Zbase=ev.sym('Z2', pos='+')))]
    law(ck, 'place', f'{kind}, {place}, {how}', fclass(ck, base(kind), 'getS'), go, limit=150)


def r_naming(ck, kind, how):
    """the ways to name the ports of a block"""
    def go(ev):
        ev.total = ev.F.loose_abs = True
        o, _ = build(ev, kind)
        own = ports_of(ev, o)
        if how == 'none':
            arg, want = None, own
        elif how == 'empty map':
            arg, want = {}, own
        elif how == 'map':
            arg, want = {own[-1]: 'last'}, own[:-1] + ['last']
        elif how == 'template':
            arg, want = 'c%d', [f'c{k}' for k in range(1, len(own) + 1)]
        else:
            arg = want = [f'c{k}' for k in range(len(own))]
        c = circ(ev)
        meth(ev, c, 'addblock', 'X', o, **({} if how == 'none' else {'ports': arg}))
        q, _ = build(ev, kind)
        return [('external ports', ports_of(ev, c), [f'X.{p}' for p in want]),
                ('S-matrix', meth(ev, c, 'getS', freq(ev, 0)), meth(ev, q, 'getS', freq(ev, 0), Zbase=ev.sym('Z5', pos='+'))),
                ('positions', list(ev.iterate(ev.getattr(c, 'xpos'))), list(ev.iterate(ev.getattr(q, 'xpos'))))]
    law(ck, 'place', f'{kind}, names by {how}', fclass(ck, 'rfCircuit', 'addblock'), go, limit=80)


def r_replace(ck, kind, was, deep, evaluated):
    def go(ev):
        ev.total = ev.F.loose_abs = True
        o, _ = build(ev, kind)
        own = ports_of(ev, o)
        n = len(own)
        names = [f'q{k}' for k in range(n)]
        w = ev.arr('W', (n, n)) if was == 'array' else build(ev, was)[0]

        def ring(x):
            c = circ(ev, 'Z6')
            meth(ev, c, 'addblock', 'X', x, ports=list(names))
            meth(ev, c, 'addblock', 'N', rlc(ev, 'n'), ports=['s', 'p'])
            meth(ev, c, 'connect', f'X.{names[-1]}', 'N.s')
            if not deep:
                return c
            d = circ(ev)
            meth(ev, d, 'addblock', 'D', c)
            meth(ev, d, 'addblock', 'M', rlc(ev, 'm'), ports=['s', 'p'])
            meth(ev, d, 'connect', 'D.N.p', 'M.s')
            return d
        c = ring(w)
        if evaluated:
            meth(ev, c, 'getS', freq(ev, 0))
        meth(ev, c, 'addblock', 'D.X' if deep else 'X', o)
        q, _ = build(ev, kind)
        d = ring(q)
        ps = ports_of(ev, d)
        out = [('external ports', ports_of(ev, c), ps),
               ('S-matrix', meth(ev, c, 'getS', freq(ev, 0)), meth(ev, d, 'getS', freq(ev, 0)))]
        E = {p: ev.sym(f'E{k}', 'complex') for k, p in enumerate(ps)}
        a, b = (meth(ev, x, 'maxV', freq(ev, 0), dict(E), Id='top') for x in (c, d))
        out += [('maximum', a[0], b[0]), ('profiles', plain(a[2]), plain(b[2]))]
        return out
    law(ck, 'replace', f'{kind} in place of {was}{", nested" if deep else ""}{", evaluated" if evaluated else ""}',
        fclass(ck, 'rfCircuit', 'addblock'), go, limit=60)


def r_copy(ck, kind, how):
    def go(ev):
        ev.total = ev.F.loose_abs = True
        o, _ = build(ev, kind)
        names = [f'q{k}' for k in range(len(ports_of(ev, o)))]
        c = p_front(ev, o, names)
        if 'evaluated' in how:
            meth(ev, c, 'getS', freq(ev, 0))
        t = True
        if 'print' in how:
            t = isinstance(meth(ev, c, 'asstr', 1) if 'full' in how else ev.callbuiltin('str', [c], {}), str)
            d = c
        else:
            d = meth(ev, c, 'copy')
        q, _ = build(ev, kind)
        r = p_front(ev, q, names)
        return [('text', t, True),
                ('S-matrix', meth(ev, d, 'getS', freq(ev, 0)), meth(ev, r, 'getS', freq(ev, 0))),
                ('ports', ports_of(ev, d), ports_of(ev, r))]
    law(ck, 'copy', f'{kind}, {how}', fclass(ck, 'rfCircuit', '__deepcopy__' if 'copy' in how else '__str__'), go, limit=60)


def plain(v):
    if isinstance(v, dict):
        return [[k, plain(w)] for k, w in v.items()]
    if isinstance(v, (list, tuple)):
        return [plain(w) for w in v]
    if isinstance(v, Arr) and v.ndim == 1:
        return [plain(w) for w in v.flat]
    return v


def profiles(ev, v, at, out, leaves):
    """walk a tree of profiles"""
    if isinstance(v, dict):
        for k, w in v.items():
            if not isinstance(k, str):
                out.append((f'name {k!r} at {at} is a text', False, True))
            profiles(ev, w, f'{at}.{k}', out, leaves)
        return
    if not isinstance(v, tuple) or len(v) != 2:
        out.append((f'profile {at} is a pair (positions, values)', type(v).__name__, 'tuple'))
        return
    xs, us = (list(ev.iterate(w)) if isinstance(w, (list, Arr)) else None for w in v)
    if xs is None or us is None:
        out.append((f'profile {at} has sequences of positions and values', False, True))
        return
    out.append((f'number of positions of {at}', len(xs), len(us)))
    out.append((f'values of {at} are real', all(real(u) for u in us), True))
    out.append((f'positions of {at} are real', all(x is None or real(x) for x in xs), True))
    leaves.append((at, v, xs, us))


def result(ev, kind, place, own):
    o, _ = build(ev, kind)
    if place == 'itself':
        c = o
    else:
        c = PLACES[place](ev, o, [f'q{k}' for k in range(len(ports_of(ev, o)))])
    E = {p: ev.sym(f'E{k}', 'complex') for k, p in enumerate(ports_of(ev, c))}
    k = {} if own else {'Zbase': ev.sym('Z2', pos='+')}
    if place == 'itself' and base(kind) not in ('rfCircuit', 'rfGTL'):
        return meth(ev, c, 'maxV', freq(ev, 0), E, k.get('Zbase'), 'top')
    return meth(ev, c, 'maxV', freq(ev, 0), E, Id='top', **k)


def r_voltages(ck, kind, place, own):
    def go(ev):
        ev.total = ev.F.loose_abs = True
        got = result(ev, kind, place, own)
        if not isinstance(got, tuple) or len(got) != 3:
            return [('maxV gives (value, place, profiles)', type(got).__name__, 'a tuple of 3')]
        v, w, p = got
        out = [('maximum is real', real(v), True), ('place is a text', isinstance(w, str), True)]
        leaves = []
        profiles(ev, p, 'top', out, leaves)
        out.append(('there are profiles', bool(leaves), True))
        return out
    law(ck, 'voltages', f'{kind}, {place}{"" if own else ", another impedance"}', fclass(ck, base(kind), 'maxV'), go, limit=30)


def r_helpers(ck, kind, place, what):
    name = {'print': 'strVSW', 'scale': 'scaleVSW', 'plot': 'plotVSWs'}[what]
    f = ck.pkg.func(name)

    def go(ev):
        ev.total = ev.F.loose_abs = True
        got = result(ev, kind, place, True)
        d = got[2] if isinstance(got[2], dict) else {'top': got[2]}
        out, leaves = [], []
        profiles(ev, d, 'x', out, leaves)
        if what == 'print':
            t = call(ev, f, d)
            lines = t.split('\n')
            return [('lines that tell of an error', [x for x in lines if x.startswith('!')], []),
                    ('values printed', sum(1 for x in lines if x.count(',') == 1), sum(len(u) for *_, u in leaves))]
        if what == 'scale':
            k = ev.sym('scale', pos='+')
            xs0 = [x for _, _, x, _ in leaves]
            call(ev, f, d, k)
            after = []
            profiles(ev, d, 'x', [], after)
            return [('positions', [x for _, _, x, _ in after], xs0),
                    ('values', [u for *_, u in after], [[ev.arith(ast.Mult, u, k) for u in us] for *_, us in leaves])]
        drawn = []
        ext(ev, drawn)
        call(ev, f, d, Id='Name', plotnodes=True)
        tops = [(x, u) for _, _, x, u in leaves]
        return [('profiles drawn against their positions', [[x, u] for x, u in drawn], [[x, u] for x, u in tops if numeric(x)])]
    law(ck, 'helpers', f'{name} of {kind}, {place}', f, go, limit=30)


def numeric(xs):
    return all(x is not None for x in xs)


def ext(ev, drawn):
    """matplotlib as far as the helper uses it: what is drawn is kept"""
    nop = Ref('py', lambda ev, a, k: None)
    note = Ref('ns', {'set_visible': nop})
    ax = Ref('ns', {'annotate': Ref('py', lambda ev, a, k: note)})
    fig = Ref('ns', {'number': 1, 'canvas': Ref('ns', {'mpl_connect': nop}), 'get_axes': Ref('py', lambda ev, a, k: [ax])})

    def plot(ev, a, k):
        xs, us = (list(ev.iterate(w)) for w in a[:2])
        if len(xs) != len(us):
            raise AbsRaise('ValueError', ('x and y must have same first dimension',), ev.where())
        drawn.append((xs, us))
    for n, f in {'plot': plot, 'subplots': lambda ev, a, k: (fig, ax), 'get_fignums': lambda ev, a, k: [],
                 'gcf': lambda ev, a, k: fig, 'gca': lambda ev, a, k: ax, 'subplot': lambda ev, a, k: ax}.items():
        ev.ext['matplotlib.pyplot.' + n] = f
    for n in ('figure', 'legend', 'xlabel', 'ylabel', 'title', 'grid'):
        ev.ext['matplotlib.pyplot.' + n] = lambda ev, a, k: None


def run(ck):
    for k in KINDS + ['rfGTL']:
        for m in ('getS', 'maxV', 'copy'):
            ck.anchor(f'{k}.{m}', fclass(ck, k, m) is not None)
    for n in ('strVSW', 'scaleVSW', 'plotVSWs'):
        ck.anchor(n, ck.pkg.func(n) is not None)
    ck.pmap('protocol', r_protocol, [(k, f) for k in ALL for f in (True, False)])
    ck.pmap('place', r_place, [(k, p, h) for k in BLOCKS for p in PLACES for h in ('own names', 'new names')
                               if not (p == 'twice' and '.' in k)])
    ck.pmap('naming', r_naming, [(k, h) for k in BLOCKS for h in ('none', 'empty map', 'map', 'template', 'list')])
    ck.pmap('replace', r_replace, [(k, w, d, e) for k in BLOCKS for w in ('array', 'rfRLC', 'rfTRL') for d in (False, True)
                                   for e in (False, True) if w == 'array' or k not in NOT2])
    ck.pmap('copy', r_copy, [(k, h) for k in BLOCKS for h in ('copy', 'evaluated, copy', 'print', 'evaluated, print', 'evaluated, print full')])
    ck.pmap('voltages', r_voltages, [(k, p, o) for k in BLOCKS for p in ['itself'] + list(PLACES) for o in (True, False)])
    ck.pmap('helpers', r_helpers, [(k, p, w) for k in BLOCKS for p in ('itself', 'front', 'nested') for w in ('print', 'scale', 'plot')])
