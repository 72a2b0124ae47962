"""C19: invalid input is reported by the documented error, never masked."""
import time

from ..aev import AbsRaise, Partition, exc_is
from ..laws import law, meth, call
from ..models import setup, freq, build, cls, make, KINDS, VARIANTS
from .c06 import circuit, rlc, trl, bad, names, fits, free, table, TABLES, STATES as CSTATES
from .c09 import fclass
from .c13 import E, base
from .c16 import ext
from .c21 import gtl

META = {
    'explanation': 'Exception-flow analysis over value numbers. Every explicit rejection of the package is approached by the '
                   'abstract interpreter with arguments that are invalid in that way, on objects in several states: the call '
                   'has to end in the type of exception the package states for the case, raised by a raise statement, with a '
                   'message that names what was wrong. Every public function a call goes through is then replaced by one that '
                   'ends in an error (each type an exception handler of the package names): the call has to end in that error, '
                   'or in one stated by a raise statement, and may neither return a result nor end in another error.',
    'rules': {
        'reject': 'an invalid argument ends in the stated type of exception, with its message',
        'propagate': 'the error of an inner call ends the outer call, as that error or as a stated one',
    },
    'assumptions': ['the invalid arguments listed stand for all of their kind', 'inner errors occur at the first or the second call of a function'],
    'technique': 'abstract interpretation (exception flow over value numbers, with trace partitioning)',
}

START = time.time()
BUDGET = 560

V, T, N, R_, IO, A = 'ValueError', 'TypeError', 'NotImplementedError', 'RuntimeError', 'OSError', 'any'

# rejections of a circuit: (type, what the message names)
CIRCUIT = {
    'addblock: size of the replacement': (V, 'A'), 'addblock: size of the replacing object': (V, 'A'),
    'addblock: unknown port in map': (V, 'N'), 'addblock: too many ports': (V, '3'), 'addblock: too few ports': (V, '1'),
    'addblock: map for an array': (T, 'N'), 'addblock: ports of a wrong type': (V, ''),
    'addblock: below an unknown block': (V, 'Q'), 'addblock: size of the deep replacement': (V, 'X'),
    'addblock: below an unknown deep block': (V, 'Q'), 'addblock: deep block, unknown port in map': (V, 'Q'),
    'addblock: ports without end': (V, '3'), 'connect: two new ports': (V, ''), 'connect: new ports only': (V, ''),
    'connect: unknown port': (V, ''), 'connect: unknown port first': (V, ''), 'connect: port twice': (V, ''),
    'connect: ports and one twice': (V, ''), 'connect: new port and one twice': (V, ''), 'connect: port in use': (V, 'B.x'),
    'connect: new port and port in use': (V, 'B.x'), 'connect: terminated port': (V, 'B.y'),
    'terminate: unknown port': (V, 'A.zz'), 'terminate: port in use': (V, 'B.x'), 'terminate: two kinds': (V, ''),
    'terminate: unknown kind': (V, 'X'), 'terminate again: two kinds': (V, ''), 'terminate again: unknown kind': (V, 'X'),
    'deembed: unknown port': (V, 'A.zz'), 'deembed: internal name in use': (V, ''), 'deembed: valid and unknown': (V, 'A.zz'),
    'deembed: valid and unknown external': (V, ''), 'deembed: external port twice': (V, ''),
    'deembed: external used by internal': (V, ''), 'deembed: not a name': (V, 'IntPorts'), 'deembed: not pairs': (V, 'IntPorts'),
    'deembed: a text': (V, 'IntPorts'), 'set: unknown parameter': (V, 'zz'), 'set: valid and unknown parameter': (V, 'zz'),
    'set: valid and unknown parameter of a line': (V, 'zz'), 'set: no parameter': (V, 'A'), 'set: not a pair': (V, ''),
    'set: a value is missing': (V, ''), 'set: array block': (V, ''), 'set: unknown deep parameter': (V, 'zz'),
    'set: valid and unknown deep parameter': (V, 'zz'), 'getS: unknown parameter': (V, 'zz'),
    'getS: valid and unknown parameter': (V, 'zz'),
}
TABLE = {
    'setS: number of frequencies': (V, '2'), 'setS: number of matrices': (V, '2'), 'setS: number of ports': (V, '3'),
    'setS: number of ports of a known frequency': (V, '3'), 'setS: not a matrix': (V, ''), 'setS: not square': (V, ''),
    'setS: ports named again': (V, ''), 'sortports: port twice': (V, ''), 'deembed: unknown port': (V, 'zz'),
    'deembed: valid and unknown port': (V, 'zz'), 'deembed: valid and a text': (V, 'p1'), 'deembed: a text': (V, 'p1'),
    'deembed: three values': (V, 'p1'), 'convert2newZbase: number of impedances': (V, '3'), 'read_tsf: unknown unit': (V, 'XHZ'),
    'read_tsf: unknown format': (V, 'XX'),
}


def new(ev, name, *a, **k):
    return ev.construct(cls(ev, name), list(a), k)


def fn(ev, name):
    f = ev.pkg.func(name)
    if f is None:
        ev.unk(f'{name} is not there')
    return f


def matrix(ev, *shape):
    return ev.arr('M', shape)


def base2(ev, **k):
    return new(ev, 'rfBase', **dict(dict(Ss=matrix(ev, 2, 2, 2), fs=[freq(ev, 0), freq(ev, 1)]), **k))


def line(ev, **k):
    return new(ev, 'rfTRL', **dict(dict(L=2, Z0TL=ev.sym('Z0', pos='+')), **k))


def two(ev, **k):
    c = new(ev, 'rfCircuit', **k)
    meth(ev, c, 'addblock', 'A', rlc(ev, 'a'), ports=['s', 'p'])
    return c


GTL = {'B': {'ports': ['p', 'm'], 'Ls': 3}, 'C': {'ports': ['m', 'q'], 'L': 2, 'Z': 30}}


def block(**k):
    return dict(GTL, B=dict({'ports': ['p', 'm'], 'Ls': 3}, **k))


def coupler(ev, **k):
    return new(ev, 'rfCoupler', **k)


def f0(ev):
    return freq(ev, 0)


def text(opt='# HZ S RI R 50', n=2, more=''):
    return f'! x\n{opt}\n{more}' + ''.join(f'{k}e7 ' + ' '.join(str(j) for j in range(2 * n * n)) + '\n' for k in (1, 3))


def nodir(ev):
    """a directory `there' with a file `x' is all there is"""
    ev.files = {'there/x': "{'a': 1}"}
    ev.ext['os.environ'] = {}
    py = lambda f: lambda ev, a, k: f(*a)
    ev.ext.update({'os.path.expanduser': py(lambda p: p), 'os.path.exists': py(lambda p: p in ('there', 'there/x')),
                   'os.walk': py(lambda p: [('there', [], ['x'])] if p == 'there' else []),
                   'os.path.join': py(lambda *p: '/'.join(p)), 'os.getenv': py(lambda n, d=None: d),
                   'glob.glob': py(lambda p: [p] if p == 'there/x' else [])})


# name: (function or class.method the report is about, type, what the message names, call)
OTHER = {
    'rfBase: ports and matrices': ('rfBase.__init__', V, 'ports', lambda ev: base2(ev, ports=['a', 'b', 'c'])),
    'rfBase: frequencies and matrices': ('rfBase.__init__', V, '3', lambda ev: base2(ev, fs=[f0(ev), freq(ev, 1), freq(ev, 2)])),
    'rfBase: no frequency for a matrix': ('rfBase.__init__', V, '0', lambda ev: base2(ev, fs=[])),
    'rfBase: matrices not square': ('rfBase.__init__', V, None, lambda ev: base2(ev, Ss=matrix(ev, 2, 2, 3))),
    'rfBase.set: unknown': ('rfBase.set', V, 'zz', lambda ev: meth(ev, base2(ev), 'set', zz=1)),
    'rfBase.set: not to be set': ('rfBase.set', V, 'ports', lambda ev: meth(ev, base2(ev), 'set', ports=['a', 'b'])),
    'rfBase.getS: unknown frequency': ('rfBase.get1S', V, 'not available', lambda ev: meth(ev, base2(ev), 'getS', freq(ev, 2))),
    'rfBase.getS: unknown frequency last': ('rfBase.get1S', V, 'not available', lambda ev: meth(ev, base2(ev), 'getS', [f0(ev), freq(ev, 2)])),
    'rfBase.getS: empty': ('rfBase.get1S', V, 'not available', lambda ev: meth(ev, new(ev, 'rfBase', ports=['a']), 'getS', f0(ev))),
    'rfBase.tsf2str: unknown option': ('rfBase.tsf2str', T, 'zz', lambda ev: meth(ev, base2(ev), 'tsf2str', zz=1)),
    'rfBase.tsf2str: options': ('rfBase.tsf2str', T, 'yy', lambda ev: meth(ev, base2(ev), 'tsf2str', zz=1, yy=2)),
    'rfBase.tsf2str: format': ('rfBase.tsf2str', V, 'QQ', lambda ev: meth(ev, base2(ev), 'tsf2str', tfmt='MHZ QQ RI R 50')),
    'rfBase.tsf2str: first word': ('rfBase.tsf2str', V, 'XHZ', lambda ev: meth(ev, base2(ev), 'tsf2str', tfmt='XHZ S RI R 50')),
    'rfBase.maxV: unknown port': ('rfBase.maxV', V, 'zz', lambda ev: meth(ev, base2(ev), 'maxV', f0(ev), {'1': 1, 'zz': 1})),
    'rfBase.maxV: unknown ports': ('rfBase.maxV', V, 'yy', lambda ev: meth(ev, base2(ev), 'maxV', f0(ev), {'zz': 1, 'yy': 1})),
    'rfBase.maxV: number of positions': ('rfBase.maxV', V, '3', lambda ev: meth(ev, base2(ev), 'maxV', f0(ev), {'1': 1, '2': 1}, xpos=[0, 1, 2])),
    'rfBase.maxV: no position': ('rfBase.maxV', V, None, lambda ev: meth(ev, base2(ev), 'maxV', f0(ev), {'1': 1, '2': 1}, xpos=None)),
    'rfRLC.set: unknown': ('rfRLC.set', V, 'zz', lambda ev: meth(ev, rlc(ev, 'a'), 'set', zz=1)),
    'rfRLC.set: not to be set': ('rfRLC.set', V, 'ports', lambda ev: meth(ev, rlc(ev, 'a'), 'set', Rs=1, ports=['a', 'b'])),
    'rfRLC.set: a method': ('rfRLC.set', V, 'getS', lambda ev: meth(ev, rlc(ev, 'a'), 'set', getS=1)),
    'rfTRL.set: unknown': ('rfTRL.set', V, 'zz', lambda ev: meth(ev, line(ev), 'set', zz=1)),
    'rfTRL.set: valid and unknown': ('rfTRL.set', V, 'zz', lambda ev: meth(ev, line(ev), 'set', L=3, zz=1)),
    'rfTRL.set: varying line': ('rfTRL.set', V, 'constant', lambda ev: meth(ev, build(ev, 'rfTRL varying')[0], 'set', L=3)),
    'rfTRL: number of positions': ('rfTRL.__init__', V, 'port', lambda ev: line(ev, xpos=[0, 1, 2])),
    'rfTRL: unknown parameter': (None, V, 'zz', lambda ev: line(ev, zz=3)),
    'rfTRL: three dimensions': (None, N, 'scalar', lambda ev: line(ev, Z0TL=[[[30, 40], [30, 40]], [[30, 40], [30, 40]]])),
    'rfCoupler: three ports': ('rfCoupler.__init__', V, '4', lambda ev: coupler(ev, f0Hz=f0(ev), kc=.1, ports=['a', 'b', 'c'])),
    'rfCoupler: five ports': ('rfCoupler.__init__', V, '4', lambda ev: coupler(ev, f0Hz=f0(ev), kc=.1, ports=['a', 'b', 'c', 'd', 'e'])),
    'rfCoupler: table': ('rfCoupler.__init__', N, 'sNp', lambda ev: coupler(ev, f0Hz=f0(ev), kc=.1, sNp='x.s2p')),
    'rfCoupler: two couplings': ('rfCoupler.__init__', V, 'kc', lambda ev: coupler(ev, f0Hz=f0(ev), kc=.1, kcdB=-20)),
    'rfCoupler: two lengths': ('rfCoupler.__init__', V, 'Lc', lambda ev: coupler(ev, f0Hz=f0(ev), kc=.1, Lc=1)),
    'rfObject: a text': ('rfObject.__init__', T, 'args[0]', lambda ev: new(ev, 'rfObject', 'x')),
    'rfObject: a number': ('rfObject.__init__', T, 'args[0]', lambda ev: new(ev, 'rfObject', 5)),
    'rfObject: one dimension': ('rfObject.__init__', T, '2-dim', lambda ev: new(ev, 'rfObject', matrix(ev, 3))),
    'rfObject: three dimensions': ('rfObject.__init__', T, '2-dim', lambda ev: new(ev, 'rfObject', matrix(ev, 2, 2, 2))),
    'rfObject: not square': ('rfObject.__init__', T, '2 x 3', lambda ev: new(ev, 'rfObject', matrix(ev, 2, 3))),
    'rfObject: list not square': ('rfObject.__init__', T, '1 x 2', lambda ev: new(ev, 'rfObject', [[1, 2]])),
    'rfObject: two arguments': ('rfObject.__init__', N, None, lambda ev: new(ev, 'rfObject', f0(ev), matrix(ev, 2, 2))),
    'rfObject: three arguments': ('rfObject.__init__', T, '3', lambda ev: new(ev, 'rfObject', 1, 2, 3)),
    'rfObject: ports and matrix': ('rfObject.__init__', V, '3', lambda ev: new(ev, 'rfObject', matrix(ev, 2, 2), ports=['a', 'b', 'c'])),
    'rfObject: matrix and touchstone': ('rfObject.__init__', V, 'touchstone', lambda ev: new(ev, 'rfObject', matrix(ev, 2, 2), touchstone=text())),
    'ConvertGeneral: type': ('ConvertGeneral', V, 'X', lambda ev: call(ev, fn(ev, 'ConvertGeneral'), 50, matrix(ev, 2, 2), 30, 'X', 'V')),
    'ConvertGeneral: second type': ('ConvertGeneral', V, 'X', lambda ev: call(ev, fn(ev, 'ConvertGeneral'), 50, matrix(ev, 2, 2), 30, 'V', 'X')),
    'ConvertGeneral: impedances': ('ConvertGeneral', V, '3', lambda ev: call(ev, fn(ev, 'ConvertGeneral'), [50, 40, 30], matrix(ev, 2, 2), 30)),
    'ConvertGeneral: second impedances': ('ConvertGeneral', V, '3', lambda ev: call(ev, fn(ev, 'ConvertGeneral'), 50, matrix(ev, 2, 2), [50, 40, 30])),
    'ConvertGeneral: impedances per frequency': ('ConvertGeneral', V, '3', lambda ev: call(ev, fn(ev, 'ConvertGeneral'), matrix(ev, 3, 2), matrix(ev, 2, 2, 2), 30)),
    'ConvertGeneral: not square': ('_check_3D_shape_', V, None, lambda ev: call(ev, fn(ev, 'ConvertGeneral'), 50, matrix(ev, 2, 3), 30)),
    'shape: not square': ('_check_3D_shape_', V, None, lambda ev: call(ev, fn(ev, '_check_3D_shape_'), matrix(ev, 2, 3))),
    'shape: stack not square': ('_check_3D_shape_', V, None, lambda ev: call(ev, fn(ev, '_check_3D_shape_'), matrix(ev, 2, 2, 3))),
    'shape: four dimensions': ('_check_3D_shape_', V, None, lambda ev: call(ev, fn(ev, '_check_3D_shape_'), matrix(ev, 1, 1, 2, 2))),
    'S_from_Z: not square': ('_check_3D_shape_', V, None, lambda ev: call(ev, fn(ev, 'S_from_Z'), matrix(ev, 2, 3))),
    'S_from_Y: not square': ('_check_3D_shape_', V, None, lambda ev: call(ev, fn(ev, 'S_from_Y'), matrix(ev, 2, 3))),
    'Z_from_S: not square': ('_check_3D_shape_', V, None, lambda ev: call(ev, fn(ev, 'Z_from_S'), matrix(ev, 2, 3))),
    'Y_from_S: not square': ('_check_3D_shape_', V, None, lambda ev: call(ev, fn(ev, 'Y_from_S'), matrix(ev, 2, 3))),
    'S_from_VI: three by three': ('S_from_VI', V, '2x2', lambda ev: call(ev, fn(ev, 'S_from_VI'), matrix(ev, 3, 3))),
    'S_from_VI: a stack': ('S_from_VI', V, '2x2', lambda ev: call(ev, fn(ev, 'S_from_VI'), matrix(ev, 1, 2, 2))),
    'S_from_VI: two values': ('S_from_VI', V, '2x2', lambda ev: call(ev, fn(ev, 'S_from_VI'), [1, 2])),
    'ReadTSF: two option lines': ('ReadTSF', V, 'multiple', lambda ev: call(ev, fn(ev, 'ReadTSF'), text(more='# HZ S RI R 50\n'))),
    'ReadTSF: unknown word': ('ReadTSF', V, 'Q', lambda ev: call(ev, fn(ev, 'ReadTSF'), text('# HZ S RI Q 50'))),
    'ReadTSF: unknown unit': ('ReadTSF', V, 'XHZ', lambda ev: call(ev, fn(ev, 'ReadTSF'), text('# XHZ S RI R 50'))),
    'ReadTSF: words among the data': ('ReadTSF', V, None, lambda ev: call(ev, fn(ev, 'ReadTSF'), text().replace(' 5 ', ' five '))),
    'ReadTSF: impedances and constants': ('ReadTSF', IO, 'mismatch', lambda ev: call(ev, fn(ev, 'ReadTSF'), hfss())),
    'ReadTSF: number of impedances': ('ReadTSF', V, 'Zbase', lambda ev: call(ev, fn(ev, 'ReadTSF'), text('# HZ S RI R 50 40 30'))),
    'WriteTSF: admittances': ('WriteTSF', V, 'S', lambda ev: write(ev, tsf_format='HZ Y RI R 50')),
    'WriteTSF: impedances': ('WriteTSF', V, 'S', lambda ev: write(ev, tsf_format='HZ Z RI R 50')),
    'WriteTSF: two number formats': ('WriteTSF', V, 'RI', lambda ev: write(ev, tsf_format='HZ S RI MA R 50')),
    'WriteTSF: no frequencies': ('WriteTSF', V, 'frequencies', lambda ev: write(ev, o=rlc(ev, 'a'))),
    'WriteTSF: no frequencies in the object': ('WriteTSF', V, 'frequencies', lambda ev: write(ev, o=new(ev, 'rfBase', ports=['a', 'b']))),
    'compareSs: ports differ': ('compareSs', V, 'S', lambda ev: (ext(ev, []), call(ev, fn(ev, 'compareSs'), [1, 2], [matrix(ev, 2, 2, 2), matrix(ev, 2, 3, 3)]))),
    'compareSs: not square': ('compareSs', V, 'S', lambda ev: (ext(ev, []), call(ev, fn(ev, 'compareSs'), [[1, 2]] * 2, [matrix(ev, 2, 2, 3), matrix(ev, 2, 2, 3)]))),
    'compareSs: number of sweeps': ('compareSs', V, 'number', lambda ev: (ext(ev, []), call(ev, fn(ev, 'compareSs'), [[1, 2]], [matrix(ev, 2, 2, 2), matrix(ev, 2, 2, 2)]))),
    'compareSs: length of a sweep': ('compareSs', V, 'fs', lambda ev: (ext(ev, []), call(ev, fn(ev, 'compareSs'), [[1, 2], [1]], [matrix(ev, 2, 2, 2), matrix(ev, 2, 2, 2)]))),
    'plotVSWs: two names': ('plotVSWs', V, 'num', lambda ev: (ext(ev, []), call(ev, fn(ev, 'plotVSWs'), {'A': ([0, 1], [1, 2])}, Id='x', num='y'))),
    'findpath: not found': ('findpath', IO, 'zz.s2p', lambda ev: (nodir(ev), call(ev, fn(ev, 'findpath'), 'zz.s2p', ['there']))),
    'findpath: no directory': ('findpath', IO, 'gone', lambda ev: (nodir(ev), call(ev, fn(ev, 'findpath'), 'x', ['gone'], missingOK=False))),
    'ReadDictData: not found': ('ReadDictData', IO, 'zz.mod', lambda ev: (nodir(ev), call(ev, fn(ev, 'ReadDictData'), 'zz.mod', userdirs=['there']))),
    'rfGTL: place of an unknown port': ('rfGTL.__init__', V, 'zz', lambda ev: gtl(ev, GTL, ['p', 'q'], relpos={'zz': 1})),
    'rfGTL: place of a known and an unknown port': ('rfGTL.__init__', V, 'zz', lambda ev: gtl(ev, GTL, ['p', 'q'], relpos={'p': 1, 'zz': 1})),
    'rfGTL: too few ports declared': ('rfGTL.__init__', V, '1', lambda ev: gtl(ev, GTL, ['p'])),
    'rfGTL: too many ports declared': ('rfGTL.__init__', V, '3', lambda ev: gtl(ev, GTL, ['p', 'q', 'r'])),
    'rfGTL: another port declared': ('rfGTL.__init__', V, 'r', lambda ev: gtl(ev, GTL, ['p', 'r'])),
    'rfGTL: inner port declared': ('rfGTL.__init__', V, 'm', lambda ev: gtl(ev, GTL, ['p', 'm'])),
    'rfGTL: no ports of a block': (None, V, 'ports', lambda ev: gtl(ev, dict(GTL, B={'Ls': 3}), ['p', 'q'])),
    'rfGTL: two names of one parameter': (None, V, '"C"', lambda ev: gtl(ev, dict(GTL, C={'ports': ['m', 'q'], 'L': 2, 'Z': 30, 'Z0TL': 30}), ['p', 'q'])),
    'rfGTL: two names of the ports': (None, V, 'B', lambda ev: gtl(ev, block(Portnames=['p', 'm']), ['p', 'q'])),
    'rfGTL: unknown model': ('rfGTL.__init__', 'KeyError', None, lambda ev: gtl(ev, GTL, ['p', 'q'], objkey='zz')),
    'rfGTL: unknown variable': ('rfGTL.__init__', A, None, lambda ev: gtl(ev, block(Rs='zz'), ['p', 'q'])),
    'rfCircuit.maxV: missing port': ('rfCircuit.maxV', V, 'A.p', lambda ev: meth(ev, two(ev), 'maxV', f0(ev), {'A.s': 1})),
    'rfCircuit.maxV: missing ports': ('rfCircuit.maxV', V, 'A.s', lambda ev: meth(ev, two(ev), 'maxV', f0(ev), {})),
    'rfCircuit.getS: number of announced ports': ('rfCircuit.extS', V, '3', lambda ev: meth(ev, two(ev, Portnames=['A.s', 'A.p', 'A.q']), 'getS', f0(ev))),
    'rfCircuit.getS: too few announced ports': ('rfCircuit.extS', V, '1', lambda ev: meth(ev, two(ev, Portnames=['A.s']), 'getS', f0(ev))),
    'rfCircuit.getS: other announced ports': ('rfCircuit.extS', V, 'A.p', lambda ev: meth(ev, two(ev, Portnames=['A.s', 'A.q']), 'getS', f0(ev))),
    'rfCircuit.Get_internalSmatrix: too many nodes': ('rfCircuit.Get_internalSmatrix', V, 'nodes',
                                                      lambda ev: inner(ev)),
}


def inner(ev):
    c = two(ev)
    meth(ev, c, 'addblock', 'B', rlc(ev, 'b'), ports=['u', 'v'])
    meth(ev, c, 'connect', 'A.p', 'B.u')
    return meth(ev, c, 'Get_internalSmatrix', f0(ev), ['A.s', 'A.p', 'B.v'])


def hfss():
    t = text(n=1).split('\n')
    out = []
    for x in t:
        out.append(x)
        if 'e7' in x:
            out += ['! Gamma ! 0 1 0 2', '! Port Impedance 50 0']
    return '\n'.join(out)


def write(ev, o=None, **k):
    ev.ext.setdefault('time.strftime', lambda ev, A, k: '2020-01-01 00:00:00')
    ev.files = {}
    return call(ev, fn(ev, 'WriteTSF'), o or base2(ev), 'out', **k)


def said(ev, e):
    """the message of an exception"""
    return ' '.join(x if isinstance(x, str) else ev.text(x) for x in e.args_)


def is_a(name, want):
    return exc_is(name, want)


def judge(ev, do, want, word):
    try:
        v = do(ev)
    except AbsRaise as e:
        ok = want == A or is_a(e.name, want)
        out = [('type of exception', e.name if not ok else want, want)]
        if ok and word is not None:
            out.append(('stated by the package', e.stated is not None, True))
            m = said(ev, e)
            if '‹' in m and word not in m:
                ev.unk('the message')
            out.append((f'message mentions {word!r}' if word else 'message', (word in m) if word else bool(m.strip()), True))
        return out
    return [('outcome', 'accepted', f'ends in {want}')]


def prepare(ev):
    ev.total = ev.F.loose_abs = True
    ev.freqs = {k: ev.F.num((4 + k) * 10000000) for k in range(6)}
    setup(ev)


def r_circuit(ck, name, state):
    def go(ev):
        prepare(ev)
        c = circuit(ev, state)
        return judge(ev, lambda ev: bad(ev, c, name)(), *CIRCUIT[name])
    law(ck, 'reject', f'{name}, on {state}', fclass(ck, 'rfCircuit', name.split(':')[0].split()[0]), go, limit=20)


def r_table(ck, name, state):
    def go(ev):
        prepare(ev)
        ev.freqs = {k: ev.F.num((1 + k) * 10000000) for k in range(6)}
        o = table(ev, state)
        return judge(ev, lambda ev: TABLES[name](ev, o), *TABLE[name])
    law(ck, 'reject', f'{name}, on {state}', fclass(ck, 'rfObject', name.split(':')[0]), go, limit=20)


def place(ck, q, do):
    if q is None:
        return ck.pkg.cls('rfTRL').find('__init__')
    if '.' in q:
        return fclass(ck, *q.split('.'))
    return ck.pkg.func(q)


def r_other(ck, name):
    q, want, word, do = OTHER[name]

    def go(ev):
        prepare(ev)
        return judge(ev, do, want, word)
    law(ck, 'reject', name, place(ck, q, do), go, limit=20)


# the functions a call goes through ------------------------------------------
TYPES = ('AttributeError', 'TypeError', 'ValueError', 'KeyError', 'IndexError', 'NameError', 'OSError', 'ZeroDivisionError', 'RuntimeError')


def program(name):
    if name.startswith('circuit '):
        state, what = name[8:].split('; ')

        def go(ev):
            c = circuit(ev, state)
            return lambda: CALLS[what](ev, c)
        return go
    kind, what = name.split('; ')

    def go(ev):
        o = build(ev, kind)[0]
        return lambda: CALLS[what](ev, o)
    return go


def read(ev):
    ev.files = {'x.s2p': text()}
    return new(ev, 'rfObject', touchstone='x.s2p')


CALLS = {
    'getS': lambda ev, o: meth(ev, o, 'getS', freq(ev, 0)),
    'getS elsewhere': lambda ev, o: meth(ev, o, 'getS', freq(ev, 2)),
    'sweep': lambda ev, o: meth(ev, o, 'getS', [freq(ev, 0), freq(ev, 1)], Zbase=ev.sym('Z9', pos='+')),
    'maxV': lambda ev, o: meth(ev, o, 'maxV', freq(ev, 0), E(ev, o)),
    'maxV elsewhere': lambda ev, o: meth(ev, o, 'maxV', freq(ev, 0), E(ev, o), Zbase=ev.sym('Z9', pos='+')),
    'Solution': lambda ev, o: meth(ev, o, 'Solution', freq(ev, 0), E(ev, o)),
    'VISWs': lambda ev, o: meth(ev, o, 'VISWs', freq(ev, 0), E(ev, o)),
    'set': lambda ev, o: meth(ev, o, 'set', 'A.Rs', ev.sym('Rv', pos='+')),
    'set deep': lambda ev, o: meth(ev, o, 'set', 'I.X.Rs', ev.sym('Rv', pos='+')),
    'getS with parameters': lambda ev, o: meth(ev, o, 'getS', freq(ev, 0), params={'A': {'Rs': ev.sym('Rv', pos='+')}}),
    'getpos': lambda ev, o: meth(ev, o, 'getpos', 'A.s'),
    'addblock': lambda ev, o: meth(ev, o, 'addblock', 'N', rlc(ev, 'n'), ports={'s': 'u'}),
    'addblock deep': lambda ev, o: meth(ev, o, 'addblock', 'I.X', rlc(ev, 'n')),
    'copy': lambda ev, o: meth(ev, o, 'copy'),
    'Get_internalSmatrix': lambda ev, o: meth(ev, o, 'Get_internalSmatrix', freq(ev, 0), free(ev, o)),
    'listBlocks': lambda ev, o: meth(ev, o, 'listBlocks'),
    'terminate': lambda ev, o: meth(ev, o, 'terminate', free(ev, o)[0], Z=ev.sym('Zv', 'complex')),
    'connect': lambda ev, o: meth(ev, o, 'connect', free(ev, o)[0], 'later'),
    'deembed': lambda ev, o: meth(ev, o, 'deembed', {free(ev, o)[0]: 'in'}),
    'deembed table': lambda ev, o: meth(ev, o, 'deembed', {'p0': ev.sym('len', pos='+')}),
    'convert2newZbase': lambda ev, o: meth(ev, o, 'convert2newZbase', ev.sym('Z9', pos='+')),
    'print': lambda ev, o: ev.callbuiltin('str', [o], {}),
    'write': lambda ev, o: write(ev, o, fs=[freq(ev, 0)]),
    'tsf2str': lambda ev, o: meth(ev, o, 'tsf2str', fs=[freq(ev, 0)]),
    'read': lambda ev, o: read(ev),
    'read again': lambda ev, o: meth(ev, o, 'read_tsf', text()),
    'find': lambda ev, o: (nodir(ev), call(ev, fn(ev, 'ReadDictData'), 'x', userdirs=['there'])),
    'build': lambda ev, o: build(ev, KIND_OF(o))[0],
}


def KIND_OF(o):
    return {'rfGTL': 'rfGTL model', 'rfTRL': 'rfTRL losses'}.get(o.cls.name, o.cls.name)


PROGRAMS = [f'circuit {s}; {w}' for s in ('junction, terminated', 'array', 'nested', 'connected')
            for w in ('getS', 'sweep', 'maxV', 'Solution', 'set', 'getS with parameters', 'getpos', 'addblock', 'copy', 'Get_internalSmatrix',
                      'listBlocks', 'terminate', 'connect', 'deembed')] + \
           ['circuit nested; set deep', 'circuit nested; addblock deep'] + \
           [f'{k}; {w}' for k in KINDS + VARIANTS for w in ('getS', 'sweep', 'maxV', 'maxV elsewhere', 'copy', 'write', 'tsf2str', 'build')
            if not (k in ('rfCircuit table',))] + \
           [f'rfObject {w}' for w in ('; getS elsewhere', 'three ports; deembed table', '; convert2newZbase', '; read', '; read again')] + \
           ['rfBase; find']
PROGRAMS = [p.replace('rfObject ;', 'rfObject;') for p in PROGRAMS]
# the functions whose errors are made to occur
PUBLIC = """getS get1S maxV Solution solve set getpos extS resolve_xpos addblock connect terminate deembed copy listBlocks findObj object
Get_internalSmatrix sortports convert2newZbase setS read_tsf tsf2str write_tsf ConvertGeneral _check_3D_shape_ ReadTSF WriteTSF findpath
ReadDictData ReadDictString S_from_Z S_from_Y Z_from_S Y_from_S S_from_VI VISWs getSgtl __init__ __deepcopy__ __copy__ __len__
_interp_ _sort_fs_ _copy_ resolve get Zin V0I0 plotVSWs strVSW scaleVSW compareSs""".split()


def known(q):
    return q.split('.')[-1] in PUBLIC


def r_propagate(ck, name, nth):
    if time.time() - START > BUDGET and ck.tier == 'quick':
        ck.notes.setdefault('left out for lack of time', []).append(name)
        return
    f, seen = program(name), {}

    def trace(ev):
        prepare(ev)
        do = f(ev)
        n = {}

        def note(func, recv):
            n[func.qual] = n.get(func.qual, 0) + 1
        ev.inject = note
        try:
            do()
        except AbsRaise:
            pass
        ev.inject = None
        for k, v in n.items():
            seen[k] = max(v, seen.get(k, 0))
        return []
    for ev, out in Partition(ck.pkg, 3).run(trace):
        if out[0] == 'unknown' and ev is None:
            break
    inner = sorted(q for q, n in seen.items() if n >= nth and known(q))
    if not inner:
        return
    for q in inner:
        # a nested function is reported with the one around it
        fs, w = list(ck.pkg.all_funcs()), q.split('.')
        func = next((x for x in fs if x.qual == q), None) or next((x for x in fs if x.mod.name == w[0] and x.name == w[1]), None)

        def go(ev, q=q):
            prepare(ev)
            out = []
            for t in TYPES:
                do = f(ev)
                n = [0]

                def hit(func, recv):
                    if func.qual == q:
                        n[0] += 1
                        if n[0] == nth:
                            raise AbsRaise(t, ('inner',), ev.where())
                ev.inject = hit
                try:
                    do()
                    got = 'returns'
                except AbsRaise as e:
                    got = t if e.name == t or e.stated else f'ends in {e.name}'
                ev.inject = None
                if n[0] >= nth:
                    out.append((f'{t} of {q}', got, t))
                else:
                    break
            return out
        law(ck, 'propagate', f'{q} in {name}{"" if nth == 1 else ", second call"}', func, go, limit=12, steps=1200000)


def run(ck):
    for k, ms in {'rfCircuit': ('addblock', 'connect', 'terminate', 'set', 'deembed', 'getS', 'maxV', 'extS'), 'rfTRL': ('__init__', 'set'), 'rfRLC': ('set',),
                  'rfBase': ('__init__', 'set', 'get1S', 'tsf2str', 'maxV'), 'rfObject': ('__init__', 'setS', 'sortports', 'deembed'), 'rfGTL': ('__init__',),
                  'rfCoupler': ('__init__',)}.items():
        for m in ms:
            ck.anchor(f'{k}.{m}', fclass(ck, k, m) is not None)
    for n in ('ConvertGeneral', '_check_3D_shape_', 'ReadTSF', 'WriteTSF', 'S_from_VI', 'compareSs', 'findpath', 'plotVSWs', 'ReadDictData'):
        ck.anchor(n, ck.pkg.func(n) is not None)
    ck.pmap('reject circuit', r_circuit, [(n, s) for n in CIRCUIT for s in CSTATES if fits(n, s)])
    ck.pmap('reject table', r_table, [(n, s) for n in TABLE for s in ('named', 'table', 'read', 'interpolated')])
    ck.pmap('reject', r_other, [(n,) for n in OTHER])
    ck.pmap('propagate', r_propagate, [(p, k) for p in PROGRAMS for k in (1, 2)])
