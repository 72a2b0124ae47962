"""C08: circuit solutions obey junction, termination and wave laws."""
from ..aev import Arr, AbsRaise, Obj
from ..laws import law, R, call, meth, same
from ..models import make, setup, freq
from ..net import Net

META = {
    'explanation': 'Abstract interpretation of circuit building and evaluation over value numbers: circuits of generic '
                   'multiports (matrices of symbols) are built by abstractly executing the package\'s own addblock, '
                   'connect, terminate, deembed and evaluation code; every entry of the resulting S-matrix, every '
                   'node voltage, current and wave and every reported voltage magnitude is compared, as a value '
                   'number, with the solution of Kirchhoff\'s equations for the same network (an independent '
                   'reference in sa/net.py).',
    'rules': {
        'junction': 'connected ports have one voltage and no net current, for 1 to 5 ports, with and without a new '
                    'external port, in chains and in loops',
        'termination': 'a terminated port sees exactly the impedance, admittance or reflection coefficient given, '
                       'before and after an evaluation and when terminated again',
        'order': 'rows and columns of the circuit matrix follow the external ports in declared order',
        'block': 'a block enters with the matrix of its object (any reference impedance, nested circuits, renamed '
                 'ports, plain arrays) and a replaced one with the new matrix',
        'solution': 'node voltages, currents and waves are those of the network for the impedance asked for, at every '
                    'level of nesting',
        'maxv': 'the voltages listed by maxV are the magnitudes of the node voltages and the maximum is one of them, '
                'not lower than any other, at the place that is named',
        'internal': 'the S-matrix of internal nodes relates the waves of the solution at these nodes',
        'deembed': 'de-embedding removes exactly the given network',
    },
    'assumptions': ['generic matrices of 1 to 4 ports stand for all multiports',
                    'reference impedances and terminations are finite'],
    'technique': 'abstract interpretation of the circuit code over value numbers (global value numbering with trace '
                 'partitioning) against Kirchhoff\'s equations',
}


class Both:
    """builds the circuit under test and its reference side by side"""

    def __init__(self, ev, **kws):
        setup(ev)
        self.ev = ev
        self.z0 = ev.sym('Z0', pos='+')
        self.c = ev.construct(ev.pkg.cls('rfCircuit'), [], dict(Zbase=self.z0, **kws))
        self.net = Net(ev, self.z0)
        self.f = freq(ev)
        self.n = 0

    def mat(self, n):
        self.n += 1
        return self.ev.arr(f'S{self.n}', (n, n))

    def add(self, name, ports, S=None):
        S = S if S is not None else self.mat(len(ports))
        # the circuit may keep or copy the array: give it its own
        meth(self.ev, self.c, 'addblock', name, S.copy(), ports=list(ports))
        self.net.add(name, ports, S)

    def connect(self, *p):
        meth(self.ev, self.c, 'connect', *p)
        self.net.connect(*p)

    def terminate(self, p, **k):
        meth(self.ev, self.c, 'terminate', p, **k)
        (kind, v), = k.items() if k else ((None, None),)
        self.net.terminate(p, kind, v)

    def eval(self):
        return meth(self.ev, self.c, 'getS', self.f)

    def ports(self):
        return list(self.ev.getattr(self.c, 'ports'))

    # obligations
    def check_S(self, ext=None):
        ev = self.ev
        z2 = ev.sym('Z2', pos='+')
        S = self.eval()
        ps = self.ports()
        if ext is None:
            out = [('set of external ports', sorted(ps), sorted(self.net.ext()))]
            if sorted(ps) != sorted(self.net.ext()):
                return out
            ext = ps
        else:
            out = [('external ports', ps, list(ext))]
        want = self.net.S(ext)
        return out + [('S-matrix', S, want),
                      ('S-matrix at another impedance', meth(ev, self.c, 'getS', self.f, Zbase=z2),
                       R(ev).convert(z2, want, self.z0)),
                      ('S-matrix asked for again', self.eval(), want)]

    def check_solution(self, own=True):
        ev = self.ev
        self.eval()
        ext = self.ports()
        z = self.z0 if own else ev.sym('Z2', pos='+')
        E = {p: ev.sym(f'E{k}', 'complex') for k, p in enumerate(ext)}
        a = (self.f, dict(E)) if own else (self.f, dict(E), z)
        got = meth(ev, self.c, 'Solution', *a)
        want = self.net.solution(ext, E, z)
        out = []
        for n, w in want.items():
            if n not in got:
                out.append((f'node {n} of the solution', None, 'a value'))
            else:
                for nm, x, y in zip(('V', 'I', 'Vf', 'Vr'), got[n], w):
                    out.append((f'{nm} at node {n}', x, y))
        return out

    def check_maxv(self, own=True):
        ev = self.ev
        self.eval()
        ext = self.ports()
        z = self.z0 if own else ev.sym('Z2', pos='+')
        E = {p: ev.sym(f'E{k}', 'complex') for k, p in enumerate(ext)}
        a = (self.f, dict(E)) if own else (self.f, dict(E), z)
        got = meth(ev, self.c, 'maxV', *a, Id='top')
        want = self.net.solution(ext, E, z)
        out = []
        try:
            vmax, where, vsw = got
            lv = vsw['top']
        except (TypeError, ValueError, KeyError):
            return [('maxV returns (value, place, {Id: profiles})', got, 'three values')]
        vals = {}
        for n, w in want.items():
            v = ev.F.abs(w[0])
            vals[f'top.{n}'] = v
            if n not in lv:
                out.append((f'profile of node {n}', None, 'a profile'))
            else:
                out.append((f'|V| at node {n}', lv[n][1][0], v))
        if where in vals:
            out.append((f'maximum at {where}', vmax, vals[where]))
            import ast
            for n, v in vals.items():
                if same(v, vmax) is not True:
                    out.append((f'maximum is not below |V| at {n}', ev.cmp(ast.Lt, vmax, v), False))
        return out


# ------------------------------------------------------------------ scenarios
def s_two(b):
    b.add('A', ['a', 'b']), b.add('B', ['a', 'b'])
    b.connect('A.b', 'B.a')


def s_two_reverse(b):
    b.add('A', ['a', 'b']), b.add('B', ['a', 'b'])
    b.connect('B.a', 'A.b')


def s_three(b):
    b.add('A', ['a', 'b']), b.add('B', ['a', 'b']), b.add('C', ['a'])
    b.connect('A.b', 'C.a', 'B.a')


def s_four(b):
    b.add('A', ['a', 'b']), b.add('B', ['a', 'b']), b.add('C', ['a', 'b'])
    b.add('D', ['q'])
    b.connect('A.b', 'D.q', 'B.a', 'C.b')


def s_new1(b):
    b.add('A', ['a', 'b'])
    b.connect('A.b', 'out')


def s_new2(b):
    b.add('A', ['a', 'b']), b.add('B', ['a', 'b'])
    b.connect('A.b', 'B.a', 'tap')


def s_new_first(b):
    b.add('A', ['a', 'b']), b.add('B', ['a', 'b'])
    b.connect('tap', 'A.b', 'B.a')


def s_new4(b):
    b.add('A', ['a', 'b']), b.add('B', ['a', 'b']), b.add('C', ['a']), b.add('D', ['a'])
    b.connect('A.b', 'B.a', 'C.a', 'new', 'D.a')


def s_chain(b):
    b.add('A', ['a', 'b']), b.add('B', ['a']), b.add('C', ['a', 'b'])
    b.connect('A.b', 'B.a', 'x')
    b.connect('x', 'C.a')


def s_chain2(b):
    b.add('A', ['a', 'b']), b.add('B', ['a', 'b'])
    b.connect('A.b', 'x')
    b.connect('B.a', 'x', 'y')
    b.connect('A.a', 'in')


def s_loop(b):
    b.add('A', ['a', 'b', 'c', 'd'])
    b.connect('A.b', 'A.d')


def s_two_links(b):
    b.add('A', ['a', 'b', 'c']), b.add('B', ['a', 'b', 'c'])
    b.connect('A.b', 'B.c')
    b.connect('A.c', 'B.b')


def s_alone(b):
    b.add('A', ['a', 'b'])
    b.connect('A.b')


def s_single(b):
    b.add('A', ['a', 'b', 'c'])


JUNCTIONS = dict(two=s_two, two_reverse=s_two_reverse, three=s_three, four=s_four, new1=s_new1, new2=s_new2,
                 new_first=s_new_first, new4=s_new4, chain=s_chain, chain2=s_chain2, loop=s_loop,
                 two_links=s_two_links, single=s_single,
                 alone=s_alone)


def z(b, k='Zt', kind='complex'):
    return b.ev.sym(k, kind, '+')


def t_Z(b):
    b.add('A', ['a', 'b'])
    b.terminate('A.b', Z=z(b))


def t_Y(b):
    b.add('A', ['a', 'b'])
    b.terminate('A.b', Y=z(b, 'Yt'))


def t_RC(b):
    b.add('A', ['a', 'b', 'c'])
    b.terminate('A.b', RC=b.ev.sym('rho', 'complex'))


def t_short(b):
    b.add('A', ['a', 'b'])
    b.terminate('A.a', Z=0)


def t_open(b):
    b.add('A', ['a', 'b'])
    b.terminate('A.a', Y=0)


def t_match(b):
    b.add('A', ['a', 'b'])
    b.terminate('A.b')


def t_named(b):
    b.add('A', ['a', 'b']), b.add('B', ['a', 'b'])
    b.connect('A.b', 'B.a', 'x')
    b.terminate('x', Z=z(b))


def t_later(b):
    b.add('A', ['a', 'b', 'c'])
    b.eval()
    b.terminate('A.b', Z=z(b))


def t_later2(b):
    b.add('A', ['a', 'b', 'c', 'd'])
    b.eval()
    b.terminate('A.d', Y=z(b, 'Yt'))
    b.eval()
    b.terminate('A.a', RC=b.ev.sym('rho', 'complex'))


def t_again(b):
    b.add('A', ['a', 'b'])
    b.terminate('A.b', Z=z(b))
    b.eval()
    b.terminate('A.b', Y=z(b, 'Yt'))


def t_again2(b):
    b.add('A', ['a', 'b', 'c'])
    b.eval()
    b.terminate('A.b', Z=z(b))
    b.eval()
    b.terminate('A.b', RC=b.ev.sym('rho', 'complex'))


def t_again3(b):
    b.add('A', ['a', 'b'])
    b.terminate('A.b', Z=z(b))
    b.terminate('A.b', Z=z(b, 'Zu'))


def t_all_but_one(b):
    b.add('A', ['a', 'b', 'c'])
    b.terminate('A.c', Z=z(b))
    b.terminate('A.a', Y=z(b, 'Yt'))


TERMINATIONS = dict(Z=t_Z, Y=t_Y, RC=t_RC, short=t_short, open=t_open, matched=t_match, named=t_named,
                    after_evaluation=t_later, twice_after_evaluation=t_later2, again=t_again,
                    again_after_evaluation=t_again2, again_at_once=t_again3, two=t_all_but_one)


def anchor(ck, name):
    c = ck.pkg.cls('rfCircuit')
    return c.find(name) if c else None


def r_S(ck, rule, name, fn, ext=None):
    def go(ev):
        b = Both(ev)
        fn(b)
        return b.check_S()
    law(ck, rule, f'S-matrix|{name}', anchor(ck, 'connect' if rule == 'junction' else 'terminate'), go, limit=60)


def r_sol(ck, name, fn, own):
    def go(ev):
        b = Both(ev)
        fn(b)
        return b.check_solution(own)
    law(ck, 'solution', f'{name}|{"own" if own else "other"} impedance', anchor(ck, 'Solution'), go, limit=60)


def r_maxv(ck, name, fn, own):
    def go(ev):
        ev.F.loose_abs = True
        b = Both(ev)
        fn(b)
        return b.check_maxv(own)
    law(ck, 'maxv', f'{name}|{"own" if own else "other"} impedance', anchor(ck, 'maxV'), go, limit=80)


def r_order(ck, perm, later):
    def go(ev):
        names = ['A.a', 'in', 'B.b']
        order = [names[i] for i in perm]
        b = Both(ev, Portnames=list(order))
        b.add('A', ['a', 'b', 'c']), b.add('B', ['a', 'b'])
        b.connect('A.b', 'B.a')
        b.connect('A.c', 'in')
        if later:
            b.add('C', ['a'])
            b.terminate('C.a', Z=z(b))
        return b.check_S(order)
    law(ck, 'order', f'Portnames in order {perm}' + (', block without free port' if later else ''),
        anchor(ck, 'extS'), go)


# --------------------------------------------------------------- block rules
def blk_array(b):
    b.add('A', ['x', 'y', 'z'])
    b.connect('A.z', 'A.x', 'new')


def obj_base(b, name, n, k, zb, ports=None):
    S = b.ev.arr(f'Sb{k}', (n, n))
    o = b.ev.construct(b.ev.pkg.cls('rfBase'), [], dict(
        Ss=Arr(S.flat, (1, n, n)), fs=[b.f], Zbase=zb, **({'ports': ports} if ports else {})))
    return o, R(b.ev).convert(b.z0, S, zb)


def blk_object(b):
    o, S = obj_base(b, 'A', 3, 1, b.ev.sym('Zb', pos='+'), ['p', 'q', 'r'])
    meth(b.ev, b.c, 'addblock', 'A', o, ports={'q': 'left', 'p': 'right'})
    b.net.add('A', ['right', 'left', 'r'], S)
    b.add('B', ['a', 'b'])
    b.connect('A.left', 'B.b')


def blk_default_names(b):
    o, S = obj_base(b, 'A', 2, 1, b.ev.sym('Zb', pos='+'), ['p', 'q'])
    meth(b.ev, b.c, 'addblock', 'A', o)
    b.net.add('A', ['p', 'q'], S)
    b.add('B', ['a'])
    b.connect('A.p', 'B.a')


def blk_same_twice(b):
    o, S = obj_base(b, 'A', 2, 1, b.ev.sym('Zb', pos='+'), ['p', 'q'])
    meth(b.ev, b.c, 'addblock', 'A', o)
    meth(b.ev, b.c, 'addblock', 'B', o, ports={'p': 'q', 'q': 'p'})
    b.net.add('A', ['p', 'q'], S)
    b.net.add('B', ['q', 'p'], S)
    b.connect('A.q', 'B.q')


def blk_replaced(b):
    b.add('A', ['a', 'b']), b.add('B', ['a', 'b'])
    b.connect('A.b', 'B.a')
    b.eval()
    S = b.mat(2)
    meth(b.ev, b.c, 'addblock', 'B', S.copy())
    b.net.replace('B', S)


def blk_rlc(b):
    o = make(b.ev, 'rfRLC', Zbase=b.ev.sym('Zb', pos='+'))
    S = meth(b.ev, make(b.ev, 'rfRLC', Zbase=b.ev.sym('Zb', pos='+')), 'getS', b.f)
    meth(b.ev, b.c, 'addblock', 'A', o)
    b.net.add('A', ['s', 'p'], R(b.ev).convert(b.z0, S, b.ev.sym('Zb', pos='+')))
    b.add('B', ['a', 'b'])
    b.connect('A.s', 'B.b')


def inner(b, zb):
    """a circuit object with internal nodes and its reference"""
    ev = b.ev
    c = ev.construct(ev.pkg.cls('rfCircuit'), [], dict(Zbase=zb, Id='inner'))
    net = Net(ev, zb)
    for k, (n, ps) in enumerate((('P', ['a', 'b']), ('Q', ['a', 'b']))):
        S = ev.arr(f'Si{k}', (2, 2))
        meth(ev, c, 'addblock', n, S.copy(), ports=list(ps))
        net.add(n, ps, S)
    for ports in (('P.b', 'Q.a'), ('P.a', 'in'), ('Q.b', 'out')):
        meth(ev, c, 'connect', *ports)
        net.connect(*ports)
    return c, net


def blk_nested(b):
    zb = b.ev.sym('Zi', pos='+')
    c, net = inner(b, zb)
    meth(b.ev, b.c, 'addblock', 'N', c)
    b.net.add('N', ['in', 'out'], R(b.ev).convert(b.z0, net.S(['in', 'out']), zb))
    b.add('B', ['a', 'b'])
    b.connect('N.out', 'B.a')
    b.inner = net


def blk_nested_renamed(b):
    zb = b.ev.sym('Zi', pos='+')
    c, net = inner(b, zb)
    meth(b.ev, b.c, 'addblock', 'N', c, ports={'out': 'b2', 'in': 'z2'})
    b.net.add('N', ['z2', 'b2'], R(b.ev).convert(b.z0, net.S(['in', 'out']), zb))
    b.add('B', ['a', 'b'])
    b.connect('N.z2', 'B.a')
    b.inner, b.ren = net, {'in': 'z2', 'out': 'b2'}


BLOCKS = dict(array=blk_array, object_renamed=blk_object, object_own_names=blk_default_names,
              one_object_twice=blk_same_twice, replaced=blk_replaced, RLC=blk_rlc, nested=blk_nested,
              nested_renamed=blk_nested_renamed)


def r_block(ck, name, fn):
    def go(ev):
        b = Both(ev)
        fn(b)
        return b.check_S()
    law(ck, 'block', name, anchor(ck, 'addblock'), go, limit=60)


def r_nested_solution(ck, fn, own, how):
    """solution at the nodes of a nested circuit"""
    def go(ev):
        b = Both(ev)
        fn(b)
        b.eval()
        ext = b.ports()
        zz = b.z0 if own else ev.sym('Z2', pos='+')
        E = {p: ev.sym(f'E{k}', 'complex') for k, p in enumerate(ext)}
        nodes = None if how == 'all' else [] if how == 'none' else ['N.P.b', 'N.Q.b']
        got = meth(ev, b.c, 'Solution', b.f, dict(E), zz, nodes)
        top = b.net.solution(ext, E, zz)
        ren = getattr(b, 'ren', {})
        Ein = {p: top[f'N.{ren.get(p, p)}'][2] for p in ('in', 'out')}
        sub = b.inner.solution(['in', 'out'], Ein, zz)
        out = []
        for n, w in top.items():
            out += [(f'{nm} at node {n}', x, y) for nm, x, y in zip(('V', 'I', 'Vf', 'Vr'), got.get(n, (None,) * 4), w)]
        want = list(sub) if how == 'all' else [] if how == 'none' else ['P.b', 'Q.b']
        for n in want:
            if n in ('in', 'out') and ren:
                continue
            g = got.get(f'N.{n}')
            if g is None:
                out.append((f'node N.{n} of the solution', None, 'a value'))
                continue
            out += [(f'{nm} at node N.{n}', x, y) for nm, x, y in zip(('V', 'I', 'Vf', 'Vr'), g, sub[n])]
        return out
    law(ck, 'solution', f'{fn.__name__[4:]}|{"own" if own else "other"} impedance, nodes {how}',
        anchor(ck, 'Solution'), go, limit=60)


def r_nested_maxv(ck):
    """voltages of a nested circuit"""
    def go(ev):
        ev.F.loose_abs = True
        ev.total = True         # the values do not depend on their order
        b = Both(ev)
        blk_nested_renamed(b)
        b.eval()
        ext = b.ports()
        zz = ev.sym('Z2', pos='+')
        E = {p: ev.sym(f'E{k}', 'complex') for k, p in enumerate(ext)}
        got = meth(ev, b.c, 'maxV', b.f, dict(E), zz, Id='top')
        top = b.net.solution(ext, E, zz)
        atz0 = b.net.solution(ext, E, zz)
        Ein = {}
        F = ev.F
        for p, q in b.ren.items():
            V, I = atz0[f'N.{q}'][:2]
            Ein[p] = F.div(F.add(V, F.mul(b.z0, I)), F.num(2))
        sub = b.inner.solution(['in', 'out'], Ein, b.z0)
        out = []
        lv = got[2].get('top', {})
        for n, w in top.items():
            out.append((f'|V| at node {n}', lv[n][1][0] if n in lv else None, F.abs(w[0])))
        for n, w in sub.items():
            x = lv.get('N', {})
            out.append((f'|V| at node N.{n}', x[n][1][0] if n in x else None, F.abs(w[0])))
        return out
    law(ck, 'maxv', 'nested circuit', anchor(ck, 'maxV'), go, limit=40)


def r_element_maxv(ck, kind):
    """a two-port element inside a circuit: end voltages"""
    def go(ev):
        ev.total = ev.F.loose_abs = True
        b = Both(ev)
        zb = ev.sym('Zb', pos='+')
        o = make(ev, kind, Zbase=zb)
        S = meth(ev, make(ev, kind, Zbase=zb), 'getS', b.f)
        ps = list(ev.getattr(o, 'ports'))
        meth(ev, b.c, 'addblock', 'A', o)
        b.net.add('A', ps, R(ev).convert(b.z0, S, zb))
        b.add('B', ['a', 'b'])
        b.connect(f'A.{ps[0]}', 'B.b')
        b.eval()
        ext = b.ports()
        zz = ev.sym('Z2', pos='+')
        E = {p: ev.sym(f'E{k}', 'complex') for k, p in enumerate(ext)}
        got = meth(ev, b.c, 'maxV', b.f, dict(E), zz, Id='top')
        top = b.net.solution(ext, E, zz)
        F = ev.F
        lv = got[2]['top']['A']
        out = []
        for k, p in enumerate(ps):
            v = F.abs(top[f'A.{p}'][0])
            if isinstance(lv, dict):
                out.append((f'|V| at port {p} of the element', lv[p][1][0] if p in lv else None, v))
            else:
                ys = ev.asarr(lv[1]).flat
                out.append((f'|V| at port {p} of the element', ys[0] if k == 0 else ys[-1], v))
        return out
    law(ck, 'maxv', f'{kind} in a circuit', anchor(ck, 'maxV'), go, limit=60)


def r_maxfun(ck, n):
    """the maximum along a sampled profile: a sample that is returned is not
    lower than any other sample"""
    fn = ck.pkg.func('maxfun')

    def go(ev):
        import ast
        setup(ev)
        F = ev.F
        x0, step = ev.sym('x', 'real'), ev.sym('dx', pos='+')
        xs = [F.add(x0, F.mul(F.num(k), step)) for k in range(n)]
        ys = [ev.sym(f'y{k}', pos='+') for k in range(n)]
        # the top of the parabola through three samples is not below them
        from ..models import polyfit
        for k in range(n - 2):
            p = polyfit(ev, [Arr(xs[k:k + 3], (3,)), Arr(ys[k:k + 3], (3,)), 2], {}).flat
            if p[0].fp == (0, 0):
                continue
            top = F.sub(p[2], F.div(F.mul(p[1], p[1]), F.mul(F.num(4), p[0])))
            if top.fp in [v.fp for v in ys]:
                continue
            for v in ys[k:k + 3]:
                ev.order.setdefault(v.fp, set()).add(top.fp)
        x, y = call(ev, fn, Arr(list(xs), (n,)), Arr(list(ys), (n,)))
        where = [k for k in range(n) if same(x, xs[k])]
        if not where:
            return [('a place between the samples', True, True)]
        out = [('value at the returned place', y, ys[where[0]])]
        for k in range(n):
            if k != where[0]:
                out.append((f'sample {k} is not above the maximum', ev.cmp(ast.Gt, ys[k], y), False))
        return out
    law(ck, 'maxv', f'maximum of a profile of {n} samples', fn, go, limit=400)


def r_solve(ck):
    def go(ev):
        b = Both(ev)
        s_new2(b)
        b.eval()
        ext = b.ports()
        zz = ev.sym('Z2', pos='+')
        E = {p: ev.sym(f'E{k}', 'complex') for k, p in enumerate(ext)}
        meth(ev, b.c, 'solve', b.f, dict(E), zz)
        want = b.net.solution(ext, E, zz)
        sol = ev.asarr(ev.getattr(b.c, 'sol')).flat
        waves = ev.getattr(b.c, 'waves')
        F = ev.F
        out = []
        for n, (V, I, _, _) in want.items():
            a = F.div(F.add(V, F.mul(b.z0, I)), F.num(2))
            out.append((f'forward wave at {n}', sol[waves.index('->' + n)], a))
            out.append((f'reflected wave at {n}', sol[waves.index('<-' + n)], F.sub(V, a)))
        return out
    law(ck, 'solution', 'solve', anchor(ck, 'solve'), go, limit=60)


def r_internal(ck, nodes):
    def go(ev):
        b = Both(ev)
        s_two(b)
        b.eval()
        ext = b.ports()
        zz = ev.sym('Z2', pos='+')
        got = meth(ev, b.c, 'Get_internalSmatrix', b.f, list(nodes), zz)
        MA, MB = [], []
        sols = [b.net.solution(ext, {p: int(p == q) for p in ext}, zz) for q in ext]
        for n in nodes:
            i, j = (3, 2) if n[0] == '<' else (2, 3)
            MA += [s[n.lstrip('<')][i] for s in sols]
            MB += [s[n.lstrip('<')][j] for s in sols]
        k = len(nodes)
        A, B = Arr(MA, (k, len(ext))), Arr(MB, (k, len(ext)))
        return [('S-matrix of the nodes', got, R(ev).mm(B, R(ev).inv(A)))]
    law(ck, 'internal', f'nodes {", ".join(nodes)}', anchor(ck, 'Get_internalSmatrix'), go, limit=60)


def r_deembed(ck, n, how):
    """X behind a two-port D at one of its ports is measured as F; removing D
    from F gives X"""
    def go(ev):
        b = Both(ev)
        z0 = b.z0
        X, D = ev.arr('X', (n, n)), ev.arr('D', (2, 2))
        ref = Net(ev, z0)
        xp = [f'x{k}' for k in range(n)]
        ref.add('X', xp, X)
        ref.add('D', ['ext', 'int'], D)
        ref.connect('X.x0', 'D.int')
        fe = ['D.ext'] + [f'X.{p}' for p in xp[1:]]
        Fm = ref.S(fe)
        c = b.c
        meth(ev, c, 'addblock', 'F', Fm.copy(), ports=[f'f{k}' for k in range(n)])
        meth(ev, c, 'addblock', 'D', D.copy(), ports=['ext', 'int'])
        IP, EP = ([('D.int', 'new')], [('D.ext', 'F.f0')])
        if how == 'dict':
            IP, EP = dict(IP), dict(EP)
        meth(ev, c, 'deembed', IP, EP)
        S = meth(ev, c, 'getS', b.f)
        ps = list(ev.getattr(c, 'ports'))
        order = ['new'] + [f'F.f{k}' for k in range(1, n)]
        if sorted(ps) != sorted(order):
            return [('external ports', sorted(ps), sorted(order))]
        ix = [order.index(p) for p in ps]
        want = Arr([X.flat[i * n + j] for i in ix for j in ix], (n, n))
        return [('de-embedded matrix', S, want)]
    law(ck, 'deembed', f'{n}-port, {how}', anchor(ck, 'deembed'), go)


def r_deembed_two(ck):
    def go(ev):
        b = Both(ev)
        z0 = b.z0
        X, D1, D2 = ev.arr('X', (2, 2)), ev.arr('D', (2, 2)), ev.arr('G', (2, 2))
        ref = Net(ev, z0)
        ref.add('X', ['p', 'q'], X), ref.add('D', ['ext', 'int'], D1), ref.add('G', ['ext', 'int'], D2)
        ref.connect('X.p', 'D.int'), ref.connect('X.q', 'G.int')
        Fm = ref.S(['D.ext', 'G.ext'])
        c = b.c
        meth(ev, c, 'addblock', 'F', Fm.copy(), ports=['f', 'g'])
        meth(ev, c, 'addblock', 'D', D1.copy(), ports=['ext', 'int'])
        meth(ev, c, 'addblock', 'G', D2.copy(), ports=['ext', 'int'])
        meth(ev, c, 'deembed', {'G.int': 'n2', 'D.int': 'n1'}, {'D.ext': 'F.f', 'G.ext': 'F.g'})
        S = meth(ev, c, 'getS', b.f)
        ps = list(ev.getattr(c, 'ports'))
        if sorted(ps) != ['n1', 'n2']:
            return [('external ports', sorted(ps), ['n1', 'n2'])]
        ix = [['n1', 'n2'].index(p) for p in ps]
        return [('de-embedded matrix', S, Arr([X.flat[i * 2 + j] for i in ix for j in ix], (2, 2)))]
    law(ck, 'deembed', 'two ports at once', anchor(ck, 'deembed'), go)


def r_table_deembed(ck, how):
    """rfObject.deembed: adding the line again gives the table back"""
    c = ck.pkg.cls('rfObject')

    def go(ev):
        o = make(ev, 'rfObject')
        z1, f = ev.sym('Z1', pos='+'), freq(ev)
        L, zl = ev.sym('Lde', pos='+'), ev.sym('Zde', pos='+')
        S = meth(ev, o, 'getS', f)
        pair = {'scalar': L, 'tuple': (L, zl), 'dict': {'L': ev.arith(__import__('ast').Mult, -1, L), 'Z0TL': zl}}[how]
        meth(ev, o, 'deembed', {'p2': pair})
        S2 = meth(ev, o, 'getS', f)
        line = ev.construct(ev.pkg.cls('rfTRL'), [], dict(
            L=L, Z0TL=z1 if how == 'scalar' else zl, Zbase=z1))
        T = meth(ev, line, 'getS', f)
        ref = Net(ev, z1)
        ref.add('O', ['p1', 'p2'], S2)
        ref.add('T', ['a', 'b'], T)
        ref.connect('O.p2', 'T.a')
        return [('line added again', ref.S(['O.p1', 'T.b']), S)]
    law(ck, 'deembed', f'rfObject, {how}', c.find('deembed') if c else None, go, limit=60)


def run(ck):
    for n in ('connect', 'terminate', 'extS', 'getS', 'Solution', 'maxV', 'deembed', 'Get_internalSmatrix', 'solve',
              'addblock'):
        ck.anchor(f'rfCircuit.{n}', anchor(ck, n) is not None)
    ck.pmap('junction', r_S, [('junction', k, f) for k, f in JUNCTIONS.items()] +
            [('termination', k, f) for k, f in TERMINATIONS.items()])
    ck.pmap('order', r_order, [(p, l) for p in ((0, 1, 2), (2, 0, 1), (1, 0, 2), (2, 1, 0)) for l in (False, True)])
    ck.pmap('block', r_block, list(BLOCKS.items()))
    sc = {**JUNCTIONS, **{f'terminated {k}': v for k, v in TERMINATIONS.items()}}
    small = ('two', 'new1', 'new2', 'chain', 'terminated Z', 'terminated named', 'terminated again', 'single', 'loop')
    ck.pmap('solution', r_sol, [(k, f, own) for k, f in sc.items() for own in (True, False)])
    ck.pmap('solution', r_nested_solution, [(f, own, how) for f in (blk_nested, blk_nested_renamed)
                                            for own in (True, False) for how in ('all', 'none', 'some')])
    ck.pmap('maxv', r_maxv, [(k, f, own) for k, f in sc.items() if k in small or ck.tier == 'thorough'
                             for own in (True, False)])
    ck.pmap('maxv', r_nested_maxv, [()])
    ck.pmap('maxv', r_element_maxv, [(k,) for k in ('rfRLC', 'rfTRL', 'rfBase', 'rfObject')])
    ck.pmap('maxv', r_maxfun, [(2,), (3,), (4,)])
    ck.rule('solution', r_solve)
    ck.pmap('internal', r_internal, [(['A.b', 'B.b'],), (['<A.b', 'B.b'],), (['A.a', 'B.b'],), (['<B.a', 'A.a'],)])
    ck.pmap('deembed', r_deembed, [(n, h) for n in (1, 2, 3) for h in ('list', 'dict')])
    ck.rule('deembed', r_deembed_two)
    ck.pmap('deembed', r_table_deembed, [('scalar',), ('tuple',), ('dict',)])
