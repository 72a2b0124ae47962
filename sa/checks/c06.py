"""C06: a rejected change leaves the object exactly as it was."""
import time

from ..aev import AbsRaise
from ..laws import law, meth, same
from ..core import Check
from ..models import setup, freq, build, cls
from .c09 import fclass
from .c13 import E, plain, base

META = {
    'explanation': 'Exception-safety analysis over value numbers: every kind of object, brought into several states, '
                   'gets one call with invalid arguments; the abstract interpreter follows the call to the point '
                   'where it is rejected and keeps what has been changed by then. Ports, positions, S-matrices (also '
                   'at another frequency and impedance), maximum voltages and the outcome of a further valid change '
                   'then have to have the value numbers they have for a second object that never got the call.',
    'rules': {
        'circuit': 'rejected addblock, connect, terminate, set, deembed and evaluation with parameters of a circuit',
        'several': 'rejected calls for several targets',
        'element': 'rejected set of an element, also when other parameters of the same call are valid',
        'table': 'rejected setS, assignment, sorting, de-embedding, renormalisation or reading of a frequency table',
    },
    'assumptions': ['the invalid calls listed stand for all rejections', 'one invalid call on a state reached by up to four calls'],
    'technique': 'abstract interpretation (effects of the exceptional paths over value numbers, with trace partitioning)',
}


def outcome(ev, fn):
    try:
        return fn()
    except AbsRaise as e:
        return f'{e.name}'


def rlc(ev, tag, **k):
    return ev.construct(cls(ev, 'rfRLC'), [], dict(dict(Rs=ev.sym('R' + tag, pos='+'), Cp=ev.sym('C' + tag, pos='+')), **k))


def trl(ev, tag):
    return ev.construct(cls(ev, 'rfTRL'), [], dict(L=ev.sym('L' + tag, pos='+'), Z0TL=ev.sym('Z' + tag, pos='+')))


def circuit(ev, state):
    setup(ev)
    c = ev.construct(cls(ev, 'rfCircuit'), [], dict(Zbase=ev.sym('Z1', pos='+')))
    add = lambda *a, **k: meth(ev, c, 'addblock', *a, **k)
    add('A', rlc(ev, 'a'), ports=['s', 'p'], relpos=ev.F.num(1))
    if state == 'one block':
        return c
    add('B', trl(ev, 'b'), ports=['x', 'y'], relpos=ev.F.num(2))
    if state == 'two blocks':
        return c
    if state == 'array':
        add('C', ev.arr('S', (2, 2)), ports=['u', 'v'])
        meth(ev, c, 'connect', 'C.u', 'B.x')
        return c
    if state == 'nested':
        d = ev.construct(cls(ev, 'rfCircuit'), [], dict(Zbase=ev.sym('Z2', pos='+')))
        meth(ev, d, 'addblock', 'X', rlc(ev, 'x'), ports=['s', 'p'])
        meth(ev, d, 'addblock', 'Y', rlc(ev, 'y'), ports=['s', 'p'])
        meth(ev, d, 'connect', 'X.p', 'Y.s')
        add('I', d, relpos=ev.F.num(3))
        meth(ev, c, 'connect', 'I.Y.p', 'B.x')
        return c
    meth(ev, c, 'connect', 'A.p', 'B.x', *(['n'] if 'junction' in state else []))
    if 'terminated' in state:
        meth(ev, c, 'terminate', 'B.y', Z=ev.sym('Zt', 'complex'))
    if 'evaluated' in state:
        meth(ev, c, 'getS', freq(ev, 0))
    return c


STATES = ['one block', 'two blocks', 'array', 'nested', 'connected', 'connected, evaluated', 'junction', 'junction, terminated',
          'terminated, evaluated']


def free(ev, c):
    return list(ev.iterate(ev.getattr(c, 'ports')))


# name: (call, states)
def bad(ev, c, name):
    p = free(ev, c)
    s = ev.sym
    m = lambda f, *a, **k: meth(ev, c, f, *a, **k)
    calls = {
        # building
        'addblock: size of the replacement': lambda: m('addblock', 'A', ev.arr('T', (3, 3))),
        'addblock: size of the replacing object': lambda: m('addblock', 'A', ev.construct(cls(ev, 'rfArcObj'), [], dict(Larc=s('La', pos='+')))),
        'addblock: unknown port in map': lambda: m('addblock', 'N', rlc(ev, 'n'), ports={'s': 'a', 'zz': 'b'}),
        'addblock: too many ports': lambda: m('addblock', 'N', rlc(ev, 'n'), ports=['a', 'b', 'c']),
        'addblock: too few ports': lambda: m('addblock', 'N', ev.arr('T', (2, 2)), ports=['a']),
        'addblock: map for an array': lambda: m('addblock', 'N', ev.arr('T', (2, 2)), ports={'1': 'a'}),
        'addblock: ports of a wrong type': lambda: m('addblock', 'N', ev.arr('T', (2, 2)), ports=5),
        'addblock: template without place': lambda: m('addblock', 'N', ev.arr('T', (2, 2)), ports='p'),
        'addblock: not an object': lambda: m('addblock', 'N', 5),
        'addblock: below an unknown block': lambda: m('addblock', 'Q.A', rlc(ev, 'n')),
        'addblock: below an element': lambda: m('addblock', 'A.Q', rlc(ev, 'n')),
        'addblock: size of the deep replacement': lambda: m('addblock', 'I.X', ev.arr('T', (3, 3))),
        'addblock: below an unknown deep block': lambda: m('addblock', 'I.Q.X', rlc(ev, 'n')),
        'addblock: deep block, unknown port in map': lambda: m('addblock', 'I.Q', rlc(ev, 'n'), ports={'zz': 'b'}),
        'addblock: text as position': lambda: m('addblock', 'N', rlc(ev, 'n'), relpos='x'),
        'addblock: text as position of an array': lambda: m('addblock', 'N', ev.arr('T', (2, 2)), relpos='x'),
        'addblock: no position': lambda: m('addblock', 'N', rlc(ev, 'n'), relpos=None),
        'addblock: ports without end': lambda: m('addblock', 'N', rlc(ev, 'n'), ports=[1, 2, 3]),
        'addblock: name is not a text': lambda: m('addblock', 5, rlc(ev, 'n')),
        'connect: a list': lambda: m('connect', list(p[:2])),
        'connect: two new ports': lambda: m('connect', p[0], 'new1', 'new2'),
        'connect: new ports only': lambda: m('connect', 'new1'),
        'connect: unknown port': lambda: m('connect', p[0], 'A.zz'),
        'connect: unknown port first': lambda: m('connect', 'Q.s', p[0]),
        'connect: port twice': lambda: m('connect', p[0], p[0]),
        'connect: ports and one twice': lambda: m('connect', p[-1], p[0], p[-1]),
        'connect: new port and one twice': lambda: m('connect', 'new1', p[0], p[0]),
        'connect: port in use': lambda: m('connect', p[0], 'B.x'),
        'connect: new port and port in use': lambda: m('connect', p[0], 'new1', 'B.x'),
        'connect: terminated port': lambda: m('connect', p[0], 'B.y'),
        'connect: not a name': lambda: m('connect', p[0], 5),
        'connect: not a name second': lambda: m('connect', p[0], 'new1', None),
        'terminate: unknown port': lambda: m('terminate', 'A.zz', Z=s('Zu', 'complex')),
        'terminate: port in use': lambda: m('terminate', 'B.x', Z=s('Zu', 'complex')),
        'terminate: two kinds': lambda: m('terminate', p[0], Z=s('Zu', 'complex'), Y=s('Yu', 'complex')),
        'terminate: unknown kind': lambda: m('terminate', p[0], X=s('Zu', 'complex')),
        'terminate: a text': lambda: m('terminate', p[0], Z='50'),
        'terminate: text as reflection': lambda: m('terminate', p[0], RC='x'),
        'terminate: several reflections': lambda: m('terminate', p[0], RC=[s('Ra', 'complex'), s('Rb', 'complex')]),
        'terminate: several impedances': lambda: m('terminate', p[0], Z=ev.arr('Zs', (2,))),
        'terminate: port is not a text': lambda: m('terminate', 5, Z=s('Zu', 'complex')),
        'terminate again: text as reflection': lambda: m('terminate', 'B.y', RC='x'),
        'terminate again: several impedances': lambda: m('terminate', 'B.y', Z=ev.arr('Zs', (2,))),
        'terminate: nothing': lambda: m('terminate', p[0], Y=None),
        'terminate again: two kinds': lambda: m('terminate', 'B.y', Z=s('Zu', 'complex'), RC=s('Yu', 'complex')),
        'terminate again: unknown kind': lambda: m('terminate', 'B.y', X=s('Zu', 'complex')),
        'terminate again: a text': lambda: m('terminate', 'B.y', Z='50'),
        'deembed: unknown port': lambda: m('deembed', {'A.zz': 'in'}),
        'deembed: internal name in use': lambda: m('deembed', {p[0]: p[-1]}),
        'deembed: valid and unknown': lambda: m('deembed', {p[0]: 'in', 'A.zz': 'in2'}),
        'deembed: valid and unknown external': lambda: m('deembed', {p[0]: 'in'}, {p[-1]: 'A.zz'}),
        'deembed: external port twice': lambda: m('deembed', {p[0]: 'in'}, {p[-1]: p[-1]}),
        'deembed: external used by internal': lambda: m('deembed', {p[0]: 'in'}, {p[0]: p[-1]}),
        'deembed: not a name': lambda: m('deembed', {p[0]: 5}),
        'deembed: not pairs': lambda: m('deembed', [p[0]]),
        'deembed: a text': lambda: m('deembed', p[0]),
        # parameters
        'set: unknown block': lambda: m('set', 'Q.Rs', s('new')),
        'set: unknown block, by keyword': lambda: m('set', Q={'Rs': s('new')}),
        'set: unknown parameter': lambda: m('set', 'A.zz', s('new')),
        'set: valid and unknown parameter': lambda: m('set', A={'Rs': s('new'), 'zz': s('new')}),
        'set: valid and unknown parameter of a line': lambda: m('set', 'B', {'L': s('new', pos='+'), 'zz': s('new')}),
        'set: no parameter': lambda: m('set', 'A', s('new')),
        'set: not a pair': lambda: m('set', ('A.Rs', s('new'), 1)),
        'set: a value is missing': lambda: m('set', 'A.Rs', s('new'), 'A.Cp'),
        'set: array block': lambda: m('set', 'C.Rs', s('new')),
        'set: unknown deep block': lambda: m('set', 'I.Q.Rs', s('new')),
        'set: unknown deep parameter': lambda: m('set', 'I.X.zz', s('new')),
        'set: valid and unknown deep parameter': lambda: m('set', 'I.X', {'Rs': s('new'), 'zz': s('new')}),
        'getS: unknown parameter': lambda: m('getS', freq(ev, 0), params={'A': {'zz': s('new')}}),
        'getS: valid and unknown parameter': lambda: m('getS', freq(ev, 0), params={'A': {'Rs': s('new'), 'zz': s('new')}}),
    }
    return calls[name]


def names():
    class Any:
        def __getattr__(self, k):
            return lambda *a, **k: None
    import re
    import inspect
    return re.findall(r"^        '([^']+)': lambda", inspect.getsource(bad), re.M)


ONLY = {'B.y': ('terminated',), 'B.x': ('array', 'nested', 'connected', 'junction', 'terminated')}
NEED = {'connect: terminated port': ('terminated',), 'terminate again': ('terminated',), 'connect: port in use': ('nested', 'connected', 'junction', 'terminated', 'array'),
        'connect: new port and port in use': ('nested', 'connected', 'junction', 'terminated', 'array'),
        'terminate: port in use': ('nested', 'connected', 'junction', 'terminated', 'array'),
        'set: array': ('array',), 'addblock: size of the deep': ('nested',), 'addblock: below an unknown deep': ('nested',),
        'addblock: deep': ('nested',), 'set: unknown deep': ('nested',), 'set: valid and unknown deep': ('nested',),
        'set: valid and unknown parameter of a line': ('two blocks', 'connected', 'terminated'),
        'set: two targets': ('two blocks', 'connected', 'terminated')}


def fits(name, state):
    best = max((k for k in NEED if name.startswith(k)), key=len, default=None)
    return best is None or any(t in state for t in NEED[best])


def look(ev, c, tag='', full=True):
    """what a user sees of an object"""
    p = outcome(ev, lambda: free(ev, c))
    out = [('ports', p), ('positions', outcome(ev, lambda: list(ev.iterate(ev.getattr(c, 'xpos'))))),
           ('size', outcome(ev, lambda: ev.callbuiltin('len', [c], {}))),
           ('S-matrix', outcome(ev, lambda: meth(ev, c, 'getS', freq(ev, 0))))]
    if full:
        out += [('S-matrix elsewhere', outcome(ev, lambda: meth(ev, c, 'getS', freq(ev, 1)))),
                ('S-matrix at another impedance', outcome(ev, lambda: meth(ev, c, 'getS', freq(ev, 0), Zbase=ev.sym('Z9', pos='+'))))]
    if isinstance(p, list):
        ex = {q: ev.sym(f'E{k}', 'complex') for k, q in enumerate(p)}
        r = outcome(ev, lambda: (lambda t: [t[0], plain(t[2])])(meth(ev, c, 'maxV', freq(ev, 0), ex)))
        out.append(('maximum voltages', strip(r)))
    return [(k + tag, v) for k, v in out]


def strip(r):
    """without the random name of the object"""
    if isinstance(r, list) and len(r) == 2 and isinstance(r[1], list) and len(r[1]) == 1 and isinstance(r[1][0], list):
        return [r[0], r[1][0][1:]]
    return r


def pairs(a, b):
    return [(k, v, w) for (k, v), (_, w) in zip(a, b)]


def refused(ev, fn):
    try:
        fn()
    except AbsRaise:
        return True
    return False


def r_circuit(ck, names_, state, then):
    """all calls of a group are rejected one after the other; when that leaves a
    trace the group is split until the call is found"""
    def go(ev):
        ev.total = ev.F.loose_abs = True
        ev.freqs = {k: ev.F.num((4 + k) * 10000000) for k in range(6)}
        c, d, t, out = circuit(ev, state), circuit(ev, state), None, 0
        for n in names_:
            # accepted calls are not the matter here
            if len(names_) > 1:
                t = t or circuit(ev, state)
                if not refused(ev, bad(ev, t, n)):
                    t = None
                    continue
            if not refused(ev, bad(ev, c, n)):
                return []
            out += 1
        if not out:
            return []
        if then != 'look':
            for x in (c, d):
                NEXT[then](ev, x)
        return pairs(look(ev, c, '', then == 'look'), look(ev, d, '', then == 'look'))
    f = fclass(ck, 'rfCircuit', names_[0].split(':')[0].split()[0])
    if len(names_) == 1:
        return law(ck, 'circuit', f'{names_[0]}, on {state}, then {then}', f, go, limit=40)
    sub = Check(ck.pid, ck.pkg, ck.tier)
    what = f'{names_[0].split(":")[0]}: {len(names_)} calls from "{names_[0].split(": ")[1]}" on, on {state}, then {then}'
    law(sub, 'circuit', what, f, go, limit=40)
    if sub.discharged:
        ck.ok('circuit', what, f.where)
        ck.analysed |= sub.analysed
    elif time.time() - START > 400:
        # no time to find the call
        law(ck, 'circuit', what, f, go, limit=40)
    else:
        h = len(names_) // 2
        r_circuit(ck, names_[:h], state, then)
        r_circuit(ck, names_[h:], state, then)


def r_several(ck, name, state):
    """a call for several targets of which one is rejected"""
    def go(ev, known):
        ev.total = ev.F.loose_abs = True
        ev.freqs = {k: ev.F.num((4 + k) * 10000000) for k in range(6)}
        c, d = circuit(ev, state), circuit(ev, state)
        if not refused(ev, SEVERAL[name][0](ev, c)):
            return []
        a = look(ev, c)
        out = pairs(a, look(ev, d))
        if all(same(v, w) is True for _, v, w in out) or not known:
            return out
        SEVERAL[name][1](ev, d)
        return pairs(a, look(ev, d))
    f = fclass(ck, 'rfCircuit', 'getS' if name.startswith('getS') else 'set')
    sub = Check(ck.pid, ck.pkg, ck.tier)
    law(sub, 'several', name, f, lambda ev: go(ev, False), limit=40)
    if sub.violations:
        # the targets before the rejected one are changed: nothing else may be
        n = len(ck.violations)
        law(ck, 'several', f'{name}, on {state}: neither unchanged nor changed up to the rejected target', f, lambda ev: go(ev, True), limit=40)
        if len(ck.violations) == n:
            v = list(sub.violations.values())[0]
            ck.bad('several', name, v['where'], f'on {state}: {v["message"]}')
    else:
        law(ck, 'several', f'{name}, on {state}', f, lambda ev: go(ev, False), limit=40)


def several():
    s = lambda ev, n='new': ev.sym(n, pos='+')
    return {
        'set: target before an unknown block': (
            lambda ev, c: lambda: meth(ev, c, 'set', A={'Rs': s(ev)}, Q={'Rs': s(ev)}), lambda ev, c: meth(ev, c, 'set', 'A.Rs', s(ev))),
        'set: target before an unknown parameter': (
            lambda ev, c: lambda: meth(ev, c, 'set', A={'Rs': s(ev)}, B={'zz': s(ev)}), lambda ev, c: meth(ev, c, 'set', 'A.Rs', s(ev))),
        'getS: target before an unknown parameter': (
            lambda ev, c: lambda: meth(ev, c, 'getS', freq(ev, 0), params={'A': {'Rs': s(ev)}, 'B': {'zz': s(ev)}}),
            lambda ev, c: meth(ev, c, 'set', 'A.Rs', s(ev))),
    }


SEVERAL = several()
START = time.time()


NEXT = {
    'the same kind of call': lambda ev, c: None,
    'terminate': lambda ev, c: meth(ev, c, 'terminate', free(ev, c)[0], Z=ev.sym('Zv', 'complex')),
    'connect': lambda ev, c: meth(ev, c, 'connect', free(ev, c)[0], 'later'),
    'addblock': lambda ev, c: (meth(ev, c, 'addblock', 'N', rlc(ev, 'v'), ports=['s', 'p']), meth(ev, c, 'connect', 'N.s', free(ev, c)[0])),
    'set': lambda ev, c: meth(ev, c, 'set', 'A.Rs', ev.sym('Rv', pos='+')),
}


# elements ----------------------------------------------------------------
ELEMENTS = {
    'rfTRL': ('L', 'Zbase', 'dx'), 'rfTRL losses': ('L', 'Zbase'), 'rfTRL varying': ('L',), 'rfTRL table': ('Zbase',),
    'rfRLC': ('Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp'), 'rfRLC series': ('Rs', 'Cp'), 'rfArcObj': ('Larc',), 'rfBase': ('Zbase',), 'rfCoupler': ('f0Hz',),
}


def new(ev, kw, k=0):
    return 36 if kw == 'dx' else ev.sym(f'new{kw}{k}', pos='+')


def r_element(ck, kind, how, before, kws):
    def go(ev):
        ev.total = ev.F.loose_abs = True
        if kind == 'rfTRL table':
            ev.freqs = {0: ev.F.num(40000000), 1: ev.F.num(41000000)}
        o, q = build(ev, kind)[0], build(ev, kind)[0]
        for x in (o, q):
            if before == 'evaluated':
                meth(ev, x, 'getS', freq(ev, 0))
                meth(ev, x, 'maxV', freq(ev, 0), E(ev, x))
        v = {k: new(ev, k) for k in kws}
        u = {'zz': ev.sym('new')}
        if how == 'unknown':
            f = lambda: meth(ev, o, 'set', **u)
        elif how == 'valid and unknown':
            f = lambda: meth(ev, o, 'set', **dict(v, **u))
        elif how == 'unknown and valid':
            f = lambda: meth(ev, o, 'set', **dict(u, **v))
        elif how == 'a method and a value':
            f = lambda: meth(ev, o, 'set', **dict(v, ports=['a', 'b', 'c'], Id='x', zz=1))
        else:
            f = lambda: meth(ev, o, 'getS', freq(ev, 0), params=dict(v, **u))
        if not refused(ev, f):
            return []
        out = pairs(look(ev, o), look(ev, q))
        if kind != 'rfTRL varying' and base(kind) not in ('rfBase', 'rfCoupler'):
            k = kws[0]
            for x in (o, q):
                meth(ev, x, 'set', **{k: new(ev, k, 1)})
            out += pairs(look(ev, o, f' after a change of {k}'), look(ev, q))
        return out
    law(ck, 'element', f'{kind}, {how}, {before}', fclass(ck, base(kind), 'getS' if how == 'params' else 'set'), go, limit=60, vacuous='accepted calls')


# tables ------------------------------------------------------------------
TEXT = '! x\n# HZ S RI R 50\n'
TABLES = {
    'setS: number of frequencies': lambda ev, o: meth(ev, o, 'setS', [freq(ev, 3), freq(ev, 4)], ev.arr('T', (2, 2))),
    'setS: number of matrices': lambda ev, o: meth(ev, o, 'setS', [freq(ev, 3)], ev.arr('T', (2, 2, 2))),
    'setS: number of ports': lambda ev, o: meth(ev, o, 'setS', freq(ev, 3), ev.arr('T', (3, 3))),
    'setS: number of ports of a known frequency': lambda ev, o: meth(ev, o, 'setS', freq(ev, 0), ev.arr('T', (3, 3))),
    'setS: not a matrix': lambda ev, o: meth(ev, o, 'setS', freq(ev, 3), ev.arr('T', (1, 1, 2, 2))),
    'setS: not square': lambda ev, o: meth(ev, o, 'setS', freq(ev, 3), ev.arr('T', (2, 3))),
    'setS: ports named again': lambda ev, o: meth(ev, o, 'setS', freq(ev, 3), ev.arr('T', (2, 2)), ['a', 'b']),
    'setS: names for another number of ports': lambda ev, o: meth(ev, o, 'setS', freq(ev, 3), ev.arr('T', (2, 2)), ['a', 'b', 'c']),
    'setS: text among the frequencies': lambda ev, o: meth(ev, o, 'setS', ['x'], ev.arr('T', (1, 2, 2))),
    'setS: text as frequency': lambda ev, o: meth(ev, o, 'setS', 'x', ev.arr('T', (2, 2))),
    'setS: no frequency': lambda ev, o: meth(ev, o, 'setS', None, ev.arr('T', (2, 2))),
    'setS: text as matrix': lambda ev, o: meth(ev, o, 'setS', freq(ev, 3), 'x'),
    'setS: text in the matrix': lambda ev, o: meth(ev, o, 'setS', freq(ev, 3), [['a', 'b'], ['c', 'd']]),
    'setS: name is not a list': lambda ev, o: meth(ev, o, 'setS', freq(ev, 3), ev.arr('T', (2, 2)), 5),
    'assignment: number of ports': lambda ev, o: meth(ev, o, '__setitem__', 1, (freq(ev, 3), ev.arr('T', (3, 3)))),
    'assignment: number of ports, first entry': lambda ev, o: meth(ev, o, '__setitem__', 0, (freq(ev, 3), ev.arr('T', (3, 3)))),
    'assignment: no matrix': lambda ev, o: meth(ev, o, '__setitem__', 1, (freq(ev, 3),)),
    'assignment: unknown entry': lambda ev, o: meth(ev, o, '__setitem__', 7, (freq(ev, 3), ev.arr('T', (2, 2)))),
    'sortports: unknown port': lambda ev, o: meth(ev, o, 'sortports', ['p1', 'zz']),
    'sortports: port twice': lambda ev, o: meth(ev, o, 'sortports', ['p1', 'p1']),
    'sortports: ports and an unknown one': lambda ev, o: meth(ev, o, 'sortports', ['p1', 'p2', 'zz']),
    'deembed: unknown port': lambda ev, o: meth(ev, o, 'deembed', {'zz': ev.sym('len', pos='+')}),
    'deembed: valid and unknown port': lambda ev, o: meth(ev, o, 'deembed', {'p1': ev.sym('len', pos='+'), 'zz': ev.sym('len', pos='+')}),
    'deembed: valid and a text': lambda ev, o: meth(ev, o, 'deembed', {'p2': ev.sym('len', pos='+'), 'p1': 'x'}),
    'deembed: valid first and a text': lambda ev, o: meth(ev, o, 'deembed', {'p1': ev.sym('len', pos='+'), 'p2': 'x'}),
    'deembed: a text': lambda ev, o: meth(ev, o, 'deembed', {'p1': 'x'}),
    'deembed: three values': lambda ev, o: meth(ev, o, 'deembed', {'p2': ev.sym('len', pos='+'), 'p1': (1, 2, 3)}),
    'convert2newZbase: a text': lambda ev, o: meth(ev, o, 'convert2newZbase', 'x'),
    'convert2newZbase: number of impedances': lambda ev, o: meth(ev, o, 'convert2newZbase', [ev.sym('Za', pos='+'), ev.sym('Zb', pos='+'), ev.sym('Zc', pos='+')]),
    'read_tsf: missing value': lambda ev, o: meth(ev, o, 'read_tsf', TEXT + '40e6 1 2 3 4 5 6 7\n'),
    'read_tsf: unknown unit': lambda ev, o: meth(ev, o, 'read_tsf', '! x\n# XHZ S RI R 50\n40e6 1 2 3 4 5 6 7 8\n'),
    'read_tsf: unknown format': lambda ev, o: meth(ev, o, 'read_tsf', '! x\n# HZ S XX R 50\n40e6 1 2 3 4 5 6 7 8\n'),
    'read_tsf: words': lambda ev, o: meth(ev, o, 'read_tsf', TEXT + '40e6 1 2 3 a b 6 7 8\n'),
    'read_tsf: unknown option': lambda ev, o: meth(ev, o, 'read_tsf', TEXT + '40e6 1 2 3 4 5 6 7 8\n', zz=1),
    'getS: unknown unit': lambda ev, o: meth(ev, o, 'getS', freq(ev, 0), funit='XHZ'),
}
TSTATES = ('new', 'empty', 'named', 'table', 'evaluated', 'interpolated', 'read')


def table(ev, state):
    setup(ev)
    if state == 'new':
        return ev.construct(cls(ev, 'rfObject'), [], dict(Zbase=ev.sym('Z1', pos='+')))
    if state == 'read':
        t = TEXT + ''.join(f'{k}e7 ' + ' '.join(ev.text(ev.sym(f't{k}_{j}')) for j in range(8)) + '\n' for k in (1, 3))
        return ev.construct(cls(ev, 'rfObject'), [], dict(ports=['p1', 'p2'], touchstone=t, Zbase=50))
    o = ev.construct(cls(ev, 'rfObject'), [], dict(ports=['p1', 'p2'], Zbase=ev.sym('Z1', pos='+')))
    if state in ('empty', 'named'):
        return o
    for k in range(2):
        meth(ev, o, 'setS', freq(ev, k), ev.arr(f'S{k}', (2, 2)))
    if state == 'evaluated':
        meth(ev, o, 'getS', freq(ev, 0))
    if state == 'interpolated':
        meth(ev, o, 'getS', freq(ev, 2))
    return o


def rows(ev, o):
    return [[plain(ev.getitem(e, 0)), plain(ev.getitem(e, 1))] for e in ev.iterate(o)]


def r_table(ck, name, state, then):
    def go(ev):
        ev.total = ev.F.loose_abs = True
        # distinct frequencies, in ascending order
        ev.freqs = {k: ev.F.num((1 + k) * 10000000) for k in range(6)}
        if state in ('table', 'evaluated', 'interpolated', 'read'):
            ev.freqs[2] = ev.F.num(15000000)
        if state == 'read':
            ev.freqs[1] = ev.F.num(30000000)
        o, q = table(ev, state), table(ev, state)
        if not refused(ev, lambda: TABLES[name](ev, o)):
            return []
        for x in (o, q):
            if then == 'entry added':
                meth(ev, x, 'setS', freq(ev, 4), ev.arr('N', (2, 2)))
            elif then == 'ports sorted':
                meth(ev, x, 'sortports')
            elif then == 'renormalised':
                meth(ev, x, 'convert2newZbase', ev.sym('Z8', pos='+'))
        out = pairs(look(ev, o), look(ev, q))
        out += [('entries', rows(ev, o), rows(ev, q)), ('impedance', ev.getattr(o, 'Zbase'), ev.getattr(q, 'Zbase'))]
        out.append(('value between', outcome(ev, lambda: meth(ev, o, 'getS', freq(ev, 2))), outcome(ev, lambda: meth(ev, q, 'getS', freq(ev, 2)))))
        return out
    m = name.split(':')[0]
    law(ck, 'table', f'{name}, on {state}, then {then}', fclass(ck, 'rfObject', '__setitem__' if m == 'assignment' else m), go, limit=60, vacuous='accepted calls')


def run(ck):
    for k, ms in {'rfCircuit': ('addblock', 'connect', 'terminate', 'set', 'deembed', 'getS'), 'rfTRL': ('set',), 'rfRLC': ('set',),
                  'rfBase': ('set', 'getS'), 'rfObject': ('setS', '__setitem__', 'sortports', 'deembed', 'convert2newZbase', 'read_tsf')}.items():
        for m in ms:
            ck.anchor(f'{k}.{m}', fclass(ck, k, m) is not None)
    groups = {}
    for n in names():
        for s in STATES:
            if fits(n, s):
                groups.setdefault((n.split(':')[0].split()[0], s), []).append(n)
    ck.pmap('circuit', r_circuit, [(n, s, t) for (_, s), n in groups.items() for t in ('look', 'terminate', 'connect', 'addblock', 'set')
                                   if not (t == 'connect' and 'terminated' in s)
                                   and not ('evaluated' in s and t in ('connect', 'addblock'))])
    ck.pmap('several', r_several, [(n, s) for n in SEVERAL for s in STATES if s in ('two blocks', 'connected', 'terminated, evaluated')])
    ck.pmap('element', r_element, [(k, h, b, v) for k, v in ELEMENTS.items() for h in ('unknown', 'valid and unknown', 'unknown and valid',
                                                                                     'a method and a value', 'params')
                                   for b in ('new', 'evaluated')])
    ck.pmap('table', r_table, [(n, s, t) for n in TABLES for s in TSTATES for t in ('nothing', 'entry added', 'ports sorted', 'renormalised')])
