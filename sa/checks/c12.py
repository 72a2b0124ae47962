"""C12: output shape follows input shape."""
from ..aev import Arr, Obj
from ..laws import law, call, meth, R
from ..models import make, setup, freq, KINDS, VARIANTS, build
from .c09 import E_, fclass

META = {
    'explanation': 'Shape analysis by abstract interpretation: every conversion is evaluated on abstract values of each '
                   'admissible rank (numbers, sequences, nested sequences, arrays, single-element ones included) and '
                   'the rank and lengths of its result are compared with those of its argument; the S-matrix '
                   'evaluation of every kind of object is evaluated for a single frequency and for sequences of '
                   'several lengths and types, and the shape of the result and the value numbers of its matrices, in '
                   'order, are compared with the ones of single evaluations.',
    'rules': {
        'conversion': 'the result of a conversion has the shape of its argument, whatever the sequence type',
        'single': 'a single frequency gives one matrix of the size of the object',
        'sequence': 'a sequence of n frequencies gives n matrices, in order, also for n = 0 and n = 1',
        'kinds': 'lists, tuples and arrays of frequencies are treated alike',
    },
    'assumptions': ['matrices up to 3 ports and sequences up to three frequencies stand for all sizes',
                    'scipy.interpolate.interp1d is an uninterpreted function that reproduces its samples',
                    'the ODE solver is an uninterpreted function of its arguments'],
    'technique': 'abstract interpretation (shape analysis and value numbering with trace partitioning)',
}

CONV = ['S_from_Z', 'Z_from_S', 'S_from_Y', 'Y_from_S']
FORMS = {
    'number': (), 'vector[2]': (2,), 'vector[1]': (1,), 'matrix[2]': (2, 2), 'matrix[1]': (1, 1), 'matrix[3]': (3, 3),
    'stack[2,2]': (2, 2, 2), 'stack[1,2]': (1, 2, 2), 'stack[1,1]': (1, 1, 1), 'stack[3,1]': (3, 1, 1),
}
TYPES = ('array', 'list', 'tuple')


def arg(ev, form, typ):
    sh = FORMS[form]
    if sh == ():
        return ev.sym('M', 'complex') if typ == 'array' else 2 if typ == 'list' else ev.F.num(3)
    a = ev.arr('M', sh, 'complex')
    if typ == 'array':
        return a
    x = a.tolist()
    if typ == 'list':
        return x
    t = lambda v: tuple(t(y) for y in v) if isinstance(v, list) else v
    return t(x)


def shape(v):
    if isinstance(v, Arr):
        return v.shape
    if isinstance(v, (list, tuple)):
        return ('sequence', len(v))
    if isinstance(v, (Obj, dict, str)) or v is None:
        return type(v).__name__
    return ()


def r_conversion(ck, name, form, typ):
    f = ck.pkg.func(name)

    def go(ev):
        setup(ev)
        x = arg(ev, form, typ)
        z = ev.sym('Z1', pos='+')
        if name == 'ConvertGeneral':
            got = call(ev, f, ev.sym('Z2', pos='+'), x, z)
        else:
            got = call(ev, f, x, z)
        return [('shape', shape(got), FORMS[form])]
    law(ck, 'conversion', f'{name} of {form}, {typ}', f, go, limit=40)


def r_convert_wave(ck, form, t1, t2, zk):
    f = ck.pkg.func('ConvertGeneral')

    def go(ev):
        setup(ev)
        x = arg(ev, form, 'array')
        sh = FORMS[form]
        n = sh[-1] if len(sh) > 1 else 1
        nf = sh[0] if len(sh) == 3 or len(sh) == 1 else 1
        s = lambda t: ev.sym(t, pos='+')
        z = s('Z1') if zk == 'one' else [s(f'Z1_{k}') for k in range(n)] if zk == 'ports' else \
            [[s(f'Z1_{k}_{j}') for k in range(n)] for j in range(nf)]
        return [('shape', shape(call(ev, f, s('Z2'), x, z, t2, t1)), sh)]
    law(ck, 'conversion', f'ConvertGeneral of {form}, {t1} to {t2}, impedance per {zk}', f, go, limit=40)


def nports(ev, o):
    return ev.callbuiltin('len', [o], {})


def r_single(ck, kind, how):
    def go(ev):
        o, cl = build(ev, kind)
        n = nports(ev, o)
        f = freq(ev, 0)
        k = {}
        if how == 'impedance':
            k['Zbase'] = ev.sym('Z2', pos='+')
        elif how == 'integer':
            f = 40000000
        s = meth(ev, o, 'getS', f, **k)
        return [('shape', shape(s), (n, n)), ('size', n, len(list(ev.iterate(ev.getattr(o, 'ports')))))]
    law(ck, 'single', f'{kind}, {how}', fclass(ck, kind.split()[0], 'getS'), go, limit=60)


def r_sequence(ck, kind, m, typ, how='plain'):
    def go(ev):
        if m == 3:
            ev.total = ev.F.loose_abs = True
        o, cl = build(ev, kind)
        n = nports(ev, o)
        fs = [freq(ev, k) for k in (1, 0, 2)[:m]]
        k = {'Zbase': ev.sym('Z2', pos='+')} if how == 'impedance' else {}
        a = fs if typ == 'list' else tuple(fs) if typ == 'tuple' else Arr(list(fs), (m,))
        s = meth(ev, o, 'getS', a, **k)
        if m == 0:
            return [('number of matrices', ev.callbuiltin('len', [s], {}), 0)]
        q, _ = build(ev, kind)
        one = [meth(ev, q, 'getS', f, **k) for f in fs]
        out = [('shape', shape(s), (m, n, n))]
        if isinstance(s, Arr) and s.shape == (m, n, n):
            out += [(f'matrix {j} of {m}', ev.getitem(s, j), one[j]) for j in range(m)]
        return out
    law(ck, 'kinds' if typ != 'list' else 'sequence', f'{kind}, {typ} of {m}{"" if how == "plain" else ", " + how}',
        fclass(ck, kind.split()[0], 'getS'), go, limit=60)


def run(ck):
    for n in CONV + ['ConvertGeneral']:
        ck.anchor(n, ck.pkg.func(n) is not None)
    for k in KINDS:
        ck.anchor(f'{k}.getS', fclass(ck, k, 'getS') is not None)
    ck.pmap('conversion', r_conversion, [(n, f, t) for n in CONV + ['ConvertGeneral'] for f in FORMS for t in TYPES])
    ck.pmap('conversion', r_convert_wave, [(f, a, b, z) for f in ('matrix[2]', 'matrix[1]', 'stack[2,2]', 'stack[1,2]',
                                                                  'vector[2]', 'number')
                                           for a, b in (('V', 'P'), ('G', 'V'), ('P', 'G'), ('V', 'V'))
                                           for z in ('one', 'ports', 'frequency')])
    kinds = KINDS + VARIANTS
    ck.pmap('single', r_single, [(k, h) for k in kinds for h in ('plain', 'impedance')])
    ck.pmap('sequence', r_sequence, [(k, m, t) for k in kinds for m in (0, 1, 2, 3) for t in ('list',)
                                    if not (k == 'rfBase' and m == 3)] +
            [(k, m, t) for k in kinds for m in (1, 2) for t in ('tuple', 'array')] +
            [(k, 2, 'list', 'impedance') for k in kinds])
