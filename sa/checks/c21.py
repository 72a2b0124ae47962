"""C21: model files are converted to SI units exactly once and fully."""
from fractions import Fraction

from ..aev import Arr
from ..laws import law, call, meth
from ..models import setup, freq, odeint, cls
from .c09 import fclass

META = {
    'explanation': 'Every keyword of the model format that has a unit is followed from the text of a model through '
                   'parsing, variable substitution, renaming and conversion to the element it describes by abstract '
                   'interpretation: the value of the keyword is a symbol, and the value numbers of the S-matrix of the '
                   'resulting circuit are compared with the ones of the same elements built directly from SI values. '
                   'A conversion that is left out, applied twice or applied to the wrong quantity gives another value '
                   'number.',
    'rules': {
        'unit': 'the value of a keyword reaches its block in SI units, whatever the form it is given in',
        'shared': 'a value used in several places, or kept by the caller, is converted once in each and stays what it was',
        'variable': 'expressions have the values of the variables of the model, the block and the call',
        'keyword': 'the alternative names of a keyword mean the same; giving both is refused',
        'structure': 'the blocks are connected, terminated and placed as the model says',
        'copy': 'a copy describes the same circuit, converted no further',
    },
    'assumptions': ['models of up to three blocks stand for all', 'the ODE solver is an uninterpreted function of its arguments'],
    'technique': 'abstract interpretation (unit conversion followed by value numbering from the model text to the elements)',
}

# the unit of the model format in SI units
UNIT = {'ID': Fraction(1, 1000), 'OD': Fraction(1, 1000), 'CTL': Fraction(1, 10**12), 'LTL': Fraction(1, 10**9),
        'rho': Fraction(1, 10**6), 'Cs': Fraction(1, 10**12), 'Cp': Fraction(1, 10**12), 'Ls': Fraction(1, 10**9),
        'Lp': Fraction(1, 10**9), 'Larc': Fraction(1, 10**9)}
NAME = {'length': 'L', 'Z': 'Z0TL', 'relpos': 'xpos', 'Portnames': 'ports'}

# keywords of one block
BLOCKS = {
    'line Z': ['length', 'Z'], 'line L Z0TL': ['L', 'Z0TL'], 'line OD ID': ['L', 'OD', 'ID'],
    'line OD Z': ['L', 'OD', 'Z'], 'line ID Z': ['length', 'ID', 'Z'], 'line LTL CTL': ['L', 'LTL', 'CTL'],
    'line Z CTL': ['L', 'Z', 'CTL'], 'line Z LTL': ['L', 'Z', 'LTL'],
    'line losses': ['L', 'LTL', 'CTL', 'rTL', 'gTL'], 'line rho': ['L', 'OD', 'ID', 'rho'],
    'line rho Z': ['L', 'OD', 'Z', 'rho'], 'line epsr': ['L', 'OD', 'ID', 'epsr'], 'line A': ['L', 'Z', 'A'],
    'line vr': ['L', 'Z', 'vr'],
    'Rs': ['Rs'], 'Ls': ['Ls'], 'Cs': ['Cs'], 'Rp': ['Rp'], 'Lp': ['Lp'], 'Cp': ['Cp'],
    'series': ['Rs', 'Ls', 'Cs'], 'shunt': ['Rp', 'Lp', 'Cp'], 'all': ['Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp'],
    'arc': ['Larc'],
}


def gtl(ev, blocks, ports, variables=None, globs=None, local=None, relpos=None, more=None, key='X', Zbase=None, **kws):
    setup(ev)
    ev.ext.setdefault('scipy.integrate.odeint', odeint)
    m = {'Portnames': ports, 'GTL': blocks}
    if local is not None:
        m['variables'] = local
    if relpos is not None:
        m['relpos'] = relpos
    d = {key: m}
    if globs is not None:
        d['variables'] = globs
    d.update(more or {})
    ev.files = {'dir/a.ciamod': repr(d) + '\n'}
    k = dict(objkey=key, Zbase=Zbase or ev.sym('Z1', pos='+'))
    if variables is not None:
        k['variables'] = variables
    k.update(kws)
    return ev.construct(cls(ev, 'rfGTL'), ['dir/a.ciamod'], k)


def element(ev, kws, Zbase=None):
    """the element of a block: SI values under the names of the elements"""
    k = {NAME.get(n, n): v for n, v in kws.items()}
    c = 'rfRLC' if set(k) & {'Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp'} else 'rfArcObj' if 'Larc' in k else 'rfTRL'
    return ev.construct(cls(ev, c), [], dict(k, Zbase=Zbase or ev.sym('Z1', pos='+')))


def si(ev, kw, v):
    u = UNIT.get(kw)
    if u is None:
        return v
    if isinstance(v, (list, tuple)):
        if v and isinstance(v[0], (list, tuple)):
            return [v[0], si(ev, kw, v[1])]
        return [si(ev, kw, x) for x in v]
    if isinstance(v, Arr):
        if v.ndim == 2:
            return [ev.getitem(v, 0), [si(ev, kw, x) for x in ev.iterate(ev.getitem(v, 1))]]
        return [si(ev, kw, x) for x in ev.iterate(v)]
    return ev.F.mul(ev.F.num(u), ev.F.num(v))


def S(ev, o, k=0):
    return meth(ev, o, 'getS', freq(ev, k))


def two(kws):
    return ['p'] if kws == ['Larc'] else ['p', 'q']


def r_unit(ck, block, how):
    kws = BLOCKS[block]

    def go(ev):
        ev.total = ev.F.loose_abs = ev.F.log_pos = True
        V = {k: ev.sym(f'v_{k}', pos='+') for k in kws}
        var, loc, glo = {}, None, None
        if how == 'number':
            V = {k: ev.F.num(x) for k, x in zip(kws, (2.5, 3.5, 1.5, 0.75, 4.5, 7.5))}
            t = {k: x for k, x in zip(kws, (2.5, 3.5, 1.5, 0.75, 4.5, 7.5))}
        elif how == 'integer':
            V = dict(zip(kws, (2, 7, 3, 5, 11, 13)))
            t = dict(V)
        elif how == 'variable':
            var = {f'x{k}': V[k] for k in kws}
            t = {k: f'x{k}' for k in kws}
        elif how == 'expression':
            var = {f'x{k}': V[k] for k in kws}
            t = {k: f'3 * x{k} / 2' for k in kws}
            V = {k: ev.F.mul(ev.F.num(Fraction(3, 2)), v) for k, v in V.items()}
        b = {'B': dict({'ports': two(kws)}, **t)}
        o = gtl(ev, b, two(kws), var, glo, loc)
        e = element(ev, {k: si(ev, k, V[k]) for k in kws})
        return [('S-matrix', S(ev, o), S(ev, e)), ('ports', list(ev.iterate(ev.getattr(o, 'ports'))), two(kws))]
    law(ck, 'unit', f'{block}, {how}', fclass(ck, 'rfGTL', '__init__'), go, limit=60)


def r_profile(ck, kw, how):
    """values that change along the line"""
    def go(ev):
        ev.total = ev.F.loose_abs = ev.F.log_pos = True
        rest = {'OD': {'ID': '7'}, 'ID': {'OD': '70'}, 'CTL': {'LTL': '300'}, 'LTL': {'CTL': '80'},
                'rho': {'OD': '70', 'ID': '30'}, 'Z0TL': {}, 'Z': {}}[kw]
        a, b, x0, x1 = (ev.sym(n, pos='+') for n in ('va', 'vb', 'x0', 'x1'))
        var = {'a': a, 'b': b, 'x0': x0, 'x1': x1}
        if how == 'list':
            t, v = '[a, b]', [a, b]
        elif how == 'tuple':
            t, v = '(a, b)', [a, b]
        elif how == 'list of one':
            t, v = '[a]', [a]
        elif how == 'literal':
            t, v = [30, 40.5], [30, ev.F.num(40.5)]
        elif how == 'array':
            var['v'] = Arr([a, b], (2,))
            t, v = 'v', [a, b]
        elif how == 'table':
            t, v = '[[0, 2], [a, b]]', [[0, 2], [a, b]]
        elif how == 'table literal':
            t, v = [[0, 1.5], [30, 40.5]], [[0, ev.F.num(1.5)], [30, ev.F.num(40.5)]]
        elif how == 'table array':
            var['v'] = Arr([0, 2, a, b], (2, 2))
            t, v = 'v', [[0, 2], [a, b]]
        bl = {'ports': ['p', 'q'], 'L': 2, kw: t, 'dx': 1.0}
        bl.update(rest)
        o = gtl(ev, {'B': bl}, ['p', 'q'], var)
        e = element(ev, dict({k: si(ev, k, int(x)) for k, x in rest.items()}, L=2, dx=ev.F.num(1.0), **{kw: si(ev, kw, v)}))
        return [('S-matrix', S(ev, o), S(ev, e))]
    law(ck, 'unit', f'{kw} as {how}', fclass(ck, 'rfGTL', '__init__'), go, limit=60)


def chain(ev, es, names, Zbase=None):
    """reference: elements one after the other"""
    c = ev.construct(cls(ev, 'rfCircuit'), [], {'Zbase': Zbase or ev.sym('Z1', pos='+')})
    for k, e in enumerate(es):
        ports = [names[k], names[k + 1]][:len(list(ev.iterate(ev.getattr(e, 'ports'))))]
        meth(ev, c, 'addblock', f'B{k}', e, ports=ports)
        if k:
            meth(ev, c, 'connect', f'B{k-1}.{names[k]}', f'B{k}.{names[k]}')
    return c


SHARE = ('LTL', 'CTL', 'OD', 'ID', 'rho', 'Ls', 'Cs', 'Lp', 'Cp')


def r_shared(ck, kw, how):
    line = kw in ('LTL', 'CTL', 'OD', 'ID', 'rho')
    rest = {'OD': {'ID': 7}, 'ID': {'OD': 70}, 'CTL': {'LTL': 300}, 'LTL': {'CTL': 80}, 'rho': {'OD': 70, 'ID': 30}}.get(kw, {})

    def go(ev):
        ev.total = ev.F.loose_abs = ev.F.log_pos = True
        v = ev.sym('v', pos='+')
        val = v
        if how == 'array':
            if not line:
                ev.unk('not applicable')
            val = Arr([v, ev.sym('w', pos='+')], (2,))
        elif how == 'array of none':
            val = Arr([v], ())
        elif how == 'list':
            val = [v, ev.sym('w', pos='+')]
        keep = ev.asarr(val).copy() if not how.startswith('list') else list(val)
        b = dict(rest, **{kw: 'v'})
        if line:
            b.update(L=2, dx=1.0)
        var = {'v': val}
        mk = lambda: gtl(ev, {'B0': dict(b, ports=['p', 'q']), 'B1': dict(b, ports=['q', 'r'])}, ['p', 'r'], var)
        o = mk()
        s1 = S(ev, o)
        o2 = mk()
        e = lambda: element(ev, dict({k: si(ev, k, x) for k, x in rest.items()},
                                     **dict({kw: si(ev, kw, [v, ev.sym('w', pos='+')] if how in ('list', 'array') else v)},
                                            **(dict(L=2, dx=ev.F.num(1.0)) if line else {}))))
        ref = S(ev, chain(ev, [e(), e()], 'pqr'))
        now = var['v']
        return [('S-matrix', s1, ref), ('S-matrix of a second object made from the same variables', S(ev, o2), ref),
                ('value the caller keeps', now if how.startswith('list') else ev.asarr(now), keep)]
    law(ck, 'shared', f'{kw} as {how} in two blocks', fclass(ck, 'rfGTL', '__init__'), go, limit=60)


def r_variable(ck, case):
    def go(ev):
        ev.total = ev.F.loose_abs = ev.F.log_pos = True
        F = ev.F
        a, b, c = (ev.sym(n, pos='+') for n in 'abc')
        n = lambda x: F.num(x)
        kw = dict(variables={}, globs=None, local=None, more=None)
        if case == 'global':
            kw.update(globs={'P': 3.5}), kw.update(variables={'Q': a})
            t, want = 'P * Q', F.mul(n(3.5), a)
        elif case == 'local':
            kw.update(local={'P': 3.5}, variables={'Q': a})
            t, want = 'P * Q', F.mul(n(3.5), a)
        elif case == 'local and global':
            kw.update(local={'P': 3.5}, globs={'Q': 7})
            t, want = 'P * Q', n(24.5)
        elif case == 'call over global':
            kw.update(globs={'P': 3.5}, variables={'P': a})
            t, want = 'P', a
        elif case == 'call over local':
            kw.update(local={'P': 3.5}, variables={'P': a})
            t, want = 'P', a
        elif case == 'global over local':
            kw.update(local={'P': 3.5}, globs={'P': 4.5})
            t, want = 'P', n(4.5)
        elif case == 'chain':
            kw.update(local={'P': 'Q + 1', 'Q': 'R / 2'}, variables={'R': a})
            t, want = 'P', F.add(F.mul(a, n(Fraction(1, 2))), n(1))
        elif case == 'chain backwards':
            kw.update(local={'Q': 'R / 2', 'P': 'Q + 1'}, variables={'R': a})
            t, want = 'P', F.add(F.mul(a, n(Fraction(1, 2))), n(1))
        elif case == 'chain with a multiple':
            kw.update(local={'P': '2 * Q', 'Q': 'R + 1'}, variables={'R': a})
            t, want = 'P', F.mul(n(2), F.add(a, n(1)))
        elif case == 'chain with a sum':
            kw.update(local={'P': 'Q + T', 'Q': 'R', 'T': '3 * R'}, variables={'R': a})
            t, want = 'P', F.mul(n(4), a)
        elif case == 'chain of names':
            kw.update(local={'P': 'Q', 'Q': 'R', 'R': 'T'}, globs={'T': 'U'}, variables={'U': a})
            t, want = 'P', a
        elif case == 'expression of the call':
            kw.update(globs={'P': 3}, variables={'R': '2 * P'})
            t, want = 'R', n(6)
        elif case == 'numpy':
            kw.update(variables={'R': a})
            t, want = 'np.sqrt(R)', F.sqrt(a)
        elif case == 'of another object':
            kw.update(local={'P': 3.5}, more={'Y': {'Portnames': [], 'GTL': {}, 'variables': {'P': 9}}})
            t, want = 'P', n(3.5)
        o = gtl(ev, {'B': {'ports': ['p', 'q'], 'Ls': t}}, ['p', 'q'], **kw)
        return [('S-matrix', S(ev, o), S(ev, element(ev, {'Ls': si(ev, 'Ls', want)})))]
    law(ck, 'variable', case, fclass(ck, 'rfGTL', '__init__'), go, limit=60)


VARS = ['global', 'local', 'local and global', 'call over global', 'call over local', 'global over local', 'chain',
        'chain backwards', 'chain with a multiple', 'chain with a sum', 'chain of names', 'expression of the call', 'numpy',
        'of another object']


def r_keep(ck):
    """the variables of the caller stay what they were"""
    def go(ev):
        ev.total = True
        a = ev.sym('a', pos='+')
        var = {'R': a, 'T': '2 * R'}
        o = gtl(ev, {'B': {'ports': ['p', 'q'], 'Ls': 'P', 'Cs': 'T'}}, ['p', 'q'], var, globs={'P': '3 * R'})
        return [('variables', list(var.items()), [('R', a), ('T', '2 * R')])]
    law(ck, 'shared', 'variables of the caller', fclass(ck, 'rfGTL', '__init__'), go, limit=60)


def r_both(ck, a, b, rest):
    def go(ev):
        ev.total = True
        v = {'L': 2, 'length': 2, 'Z0TL': 30, 'Z': 30, 'ports': ['p', 'q'], 'Portnames': ['p', 'q'], 'xpos': 1, 'relpos': 1}
        bl = {k: v[k] for k in rest + [a, b]}
        gtl(ev, {'B': bl}, ['p', 'q'], {})
        return []
    law(ck, 'keyword', f'{a} and {b} together', fclass(ck, 'rfGTL', '__init__'), go, limit=60, raises='ValueError')


def r_names(ck, names):
    def go(ev):
        ev.total = True
        v = {'L': 'l', 'length': 'l', 'Z0TL': 'z', 'Z': 'z', 'ports': ['p', 'q'], 'Portnames': ['p', 'q'], 'xpos': 'x', 'relpos': 'x'}
        l, z, x = (ev.sym(n, pos='+') for n in 'lzx')
        o = gtl(ev, {'B': {k: v[k] for k in names}}, ['p', 'q'], {'l': l, 'z': z, 'x': x})
        e = element(ev, {'L': l, 'Z0TL': z})
        out = [('S-matrix', S(ev, o), S(ev, e))]
        if 'x' in [v[k] for k in names if isinstance(v[k], str)]:
            out.append(('positions of the ports', list(ev.iterate(ev.getattr(o, 'xpos'))), [x, ev.F.add(x, l)]))
        return out
    law(ck, 'keyword', ' '.join(names), fclass(ck, 'rfGTL', '__init__'), go, limit=60)


def r_missing(ck, what):
    def go(ev):
        ev.total = True
        if what == 'no ports':
            gtl(ev, {'B': {'L': 2, 'Z': 30}}, ['p', 'q'], {})
        elif what == 'undeclared port':
            gtl(ev, {'B': {'L': 2, 'Z': 30, 'ports': ['p', 'q']}}, ['p'], {})
        elif what == 'another port':
            gtl(ev, {'B': {'L': 2, 'Z': 30, 'ports': ['p', 'q']}}, ['p', 'r'], {})
        elif what == 'position of an unknown port':
            gtl(ev, {'B': {'L': 2, 'Z': 30, 'ports': ['p', 'q']}}, ['p', 'q'], {}, relpos={'x': 1.})
        return []
    law(ck, 'keyword', f'refused: {what}', fclass(ck, 'rfGTL', '__init__'), go, limit=60, raises='ValueError')


def r_structure(ck, case):
    def go(ev):
        ev.total = ev.F.loose_abs = ev.F.log_pos = True
        F = ev.F
        s = lambda n: ev.sym(n, pos='+')
        l1, z1, l2, z2, x, r, zt = s('l1'), s('zz1'), s('l2'), s('zz2'), s('x'), s('r'), s('zt')
        var = dict(l1=l1, z1=z1, l2=l2, z2=z2, x=x, r=r, zt=zt)
        A = lambda *p, **k: dict({'ports': list(p), 'L': 'l1', 'Z': 'z1'}, **k)
        B = lambda *p, **k: dict({'ports': list(p), 'length': 'l2', 'Z0TL': 'z2'}, **k)
        ea = lambda: element(ev, {'L': l1, 'Z0TL': z1})
        eb = lambda: element(ev, {'L': l2, 'Z0TL': z2})
        er = lambda: element(ev, {'Rs': r})
        c = ev.construct(cls(ev, 'rfCircuit'), [], {'Zbase': s('Z1')})
        add = lambda n, e, *p: meth(ev, c, 'addblock', n, e, ports=list(p))
        conn = lambda *p: meth(ev, c, 'connect', *p)
        term = lambda p, **k: meth(ev, c, 'terminate', p, **k)
        kw, pos = {}, None
        if case in ('chain', 'chain reversed'):
            rev = case.endswith('reversed')
            b, ports = {'A': A('p', 'm'), 'B': B('m', 'q')}, ['q', 'p'] if rev else ['p', 'q']
            add('A', ea(), 'p', 'm'), add('B', eb(), 'm', 'q'), conn('A.m', 'B.m')
            conn('B.q', 'q'), conn('A.p', 'p')
            if rev:
                b = {'B': b['B'], 'A': b['A']}
        elif case == 'junction':
            b = {'A': A('p', 'm'), 'B': B('m', 'q'), 'C': {'ports': ['m', 'u'], 'Rs': 'r'}}
            ports = ['p', 'q', 'u']
            add('A', ea(), 'p', 'm'), add('B', eb(), 'm', 'q'), add('C', er(), 'm', 'u'), conn('A.m', 'B.m', 'C.m')
        elif case in ('short', 'open', 'load', 'short first'):
            t = {'short': '[sc]', 'open': '[oc]', 'load': {'Z': 33.5}, 'short first': '[sc]'}[case]
            st = B(t, 'm') if case == 'short first' else B('m', t)
            b, ports = {'A': A('p', 'm'), 'B': st, 'C': {'ports': ['m', 'u'], 'Rs': 'r'}}, ['p', 'u']
            add('A', ea(), 'p', 'm'), add('C', er(), 'm', 'u')
            add('B', eb(), *(('t', 'm') if case == 'short first' else ('m', 't')))
            conn('A.m', 'B.m', 'C.m')
            term('B.t', **({'Z': F.num(33.5)} if case == 'load' else {'Y': 0} if case == 'open' else {'Z': 0}))
        elif case == 'position of a stub':
            b = {'A': A('p', 'm'), 'B': B('[sc]', 'm', relpos='x'), 'C': {'ports': ['m', 'u'], 'Rs': 'r'}}
            ports = ['p', 'u']
            add('A', ea(), 'p', 'm'), add('C', er(), 'm', 'u'), add('B', eb(), 't', 'm')
            conn('A.m', 'B.m', 'C.m'), term('B.t', Z=0)
            pos = [F.sub(F.add(x, l2), l1), F.add(x, l2)]
        elif case in ('two stubs',):
            b, ports = {'A': A('p', '[sc]'), 'B': B('p', '[oc]'), 'C': {'ports': ['p', 'u'], 'Rs': 'r'}}, ['u']
            add('A', ea(), 'p', 't'), add('B', eb(), 'p', 't'), add('C', er(), 'p', 'u')
            conn('A.p', 'B.p', 'C.p'), term('A.t', Z=0), term('B.t', Y=0)
        elif case in ('arc',):
            b, ports = {'A': A('p', 'm'), 'B': B('m', 'q'), 'C': {'ports': ['m'], 'Larc': 'r'}}, ['p', 'q']
            add('A', ea(), 'p', 'm'), add('B', eb(), 'm', 'q')
            add('C', element(ev, {'Larc': si(ev, 'Larc', r)}), 'm'), conn('A.m', 'B.m', 'C.m')
        elif case.startswith('position'):
            b, ports = {'A': A('p', 'm'), 'B': B('m', 'q')}, ['p', 'q']
            add('A', ea(), 'p', 'm'), add('B', eb(), 'm', 'q'), conn('A.m', 'B.m')
            if case == 'position first':
                kw['relpos'], pos = {'p': 1.5}, [F.num(1.5), F.add(F.num(1.5), F.add(l1, l2))]
            elif case == 'position last':
                kw['relpos'], pos = {'q': '2 * x'}, [F.sub(F.mul(F.num(2), x), F.add(l1, l2)), F.mul(F.num(2), x)]
            elif case == 'position block':
                b['B']['relpos'] = 'x'
                pos = [F.sub(x, l1), F.add(x, l2)]
            elif case == 'position backwards':
                b['B']['ports'] = ['q', 'm']
                c = ev.construct(cls(ev, 'rfCircuit'), [], {'Zbase': s('Z1')})
                add('A', ea(), 'p', 'm'), add('B', eb(), 'q', 'm'), conn('A.m', 'B.m')
                kw['relpos'], pos = {'p': 'x'}, [x, F.sub(F.add(x, l1), l2)]
        o = gtl(ev, b, ports, var, **kw)
        want = list(ev.iterate(ev.getattr(c, 'ports')))
        bare = [p.split('.')[-1] for p in want]
        ref = S(ev, c)
        ix = [bare.index(p) for p in ports]
        n = len(ports)
        out = [('ports', list(ev.iterate(ev.getattr(o, 'ports'))), ports),
               ('S-matrix', S(ev, o), Arr([ref.flat[i * n + j] for i in ix for j in ix], (n, n)))]
        if pos is not None:
            out.append(('positions', list(ev.iterate(ev.getattr(o, 'xpos'))), pos))
        return out
    law(ck, 'structure', case, fclass(ck, 'rfGTL', '__init__'), go, limit=60)


STRUCT = ['chain', 'chain reversed', 'junction', 'short', 'open', 'load', 'short first', 'two stubs', 'arc', 'position first',
          'position last', 'position block', 'position backwards', 'position of a stub']


def r_copy(ck, how):
    def go(ev):
        ev.total = ev.F.loose_abs = ev.F.log_pos = True
        var = {'a': ev.sym('a', pos='+'), 'b': ev.sym('b', pos='+'), 'l': ev.sym('l', pos='+')}
        o = gtl(ev, {'A': {'ports': ['p', 'm'], 'L': 'l', 'LTL': 'a', 'CTL': 'b'}, 'B': {'ports': ['m', 'q'], 'Ls': 'a'}},
                ['p', 'q'], var)
        s = S(ev, o)
        c = meth(ev, o, 'copy')
        out = [('S-matrix of the copy', S(ev, c), s), ('S-matrix of the original', S(ev, o), s),
               ('S-matrix of the copy elsewhere', S(ev, c, 1), S(ev, o, 1))]
        return out
    law(ck, 'copy', how, fclass(ck, 'rfGTL', '__deepcopy__'), go, limit=60)


def run(ck):
    ck.anchor('rfGTL', fclass(ck, 'rfGTL', '__init__') is not None)
    ck.pmap('unit', r_unit, [(b, h) for b in BLOCKS for h in ('number', 'integer', 'variable', 'expression')])
    ck.pmap('unit', r_profile, [(k, h) for k in ('OD', 'ID', 'CTL', 'LTL', 'rho', 'Z0TL', 'Z') for h in
                                ('list', 'tuple', 'list of one', 'literal', 'array', 'table', 'table literal', 'table array')])
    ck.pmap('shared', r_shared, [(k, h) for k in SHARE for h in ('number', 'array of none')] +
            [(k, h) for k in ('LTL', 'CTL', 'OD', 'ID', 'rho') for h in ('array', 'list')])
    ck.pmap('variable', r_variable, [(c,) for c in VARS])
    ck.pmap('shared', r_keep, [()])
    ck.pmap('keyword', r_both, [('L', 'length', ['ports', 'Z']), ('Z0TL', 'Z', ['ports', 'L']), ('xpos', 'relpos', ['ports', 'L', 'Z']),
                                ('ports', 'Portnames', ['L', 'Z'])])
    ck.pmap('keyword', r_names, [((a, b, c) + d,) for a in ('ports', 'Portnames') for b in ('L', 'length') for c in ('Z', 'Z0TL')
                                 for d in ((), ('xpos',), ('relpos',))])
    ck.pmap('keyword', r_missing, [(w,) for w in ('no ports', 'undeclared port', 'another port', 'position of an unknown port')])
    ck.pmap('structure', r_structure, [(c,) for c in STRUCT])
    ck.pmap('copy', r_copy, [('copy',)])
