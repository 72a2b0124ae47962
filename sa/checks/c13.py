"""C13: a frequency sweep equals its points evaluated one by one."""
from ..aev import Arr
from ..laws import law, meth
from ..models import make, setup, freq, KINDS, VARIANTS, build
from .c09 import E_, fclass

META = {
    'explanation': 'Dependence analysis over value numbers: an object is evaluated after a history of other evaluations '
                   '(other frequencies, impedances, maximum voltages, solutions, printing), in sweeps of any order and '
                   'with repetitions; a second object made the same way is evaluated at the point alone. Any '
                   'loop-carried or kept value that finds its way into the result gives it another value number than '
                   'that of the second object.',
    'rules': {
        'sweep': 'each matrix of a sweep is the one of a fresh object at that frequency alone, whatever the order and '
                 'the repetitions',
        'close': 'frequencies a fraction of a Hz apart are different points of a sweep',
        'history': 'an evaluation after other evaluations is that of a fresh object',
        'voltages': 'maximum voltages and solutions after other evaluations are those of a fresh object',
        'present': 'after a parameter change a sweep is that of an object that had the new value from the start',
    },
    'assumptions': ['sweeps of up to four points and histories of up to three evaluations stand for all',
                    'scipy.interpolate.interp1d is an uninterpreted function of its data that reproduces its samples',
                    'the ODE solver is an uninterpreted function of its arguments'],
    'technique': 'abstract interpretation (dependence of results over value numbers, with trace partitioning)',
}

SWEEPS = {'reversed': (1, 0), 'repeated': (0, 0), 'back and forth': (0, 1, 0), 'up': (0, 1)}
EXTRA = {'between': (2, 0, 1), 'outside last': (1, 0, 2)}


def base(kind):
    return kind.split()[0]


def plain(v):
    if isinstance(v, dict):
        return [[k, plain(w)] for k, w in v.items()]
    if isinstance(v, (list, tuple)):
        return [plain(w) for w in v]
    return v


def E(ev, o, tag='E'):
    ports = list(ev.iterate(ev.getattr(o, 'ports')))
    return {p: ev.sym(f'{tag}{k}', 'complex') for k, p in enumerate(ports)}


HISTORY = {
    'getS elsewhere': lambda ev, o: meth(ev, o, 'getS', freq(ev, 1)),
    'getS elsewhere and here': lambda ev, o: (meth(ev, o, 'getS', freq(ev, 1)), meth(ev, o, 'getS', freq(ev, 0))),
    'getS at another impedance': lambda ev, o: meth(ev, o, 'getS', freq(ev, 0), Zbase=ev.sym('Z9', pos='+')),
    'sweep': lambda ev, o: meth(ev, o, 'getS', [freq(ev, 1), freq(ev, 0), freq(ev, 1)]),
    'maxV elsewhere': lambda ev, o: meth(ev, o, 'maxV', freq(ev, 1), E(ev, o, 'D')),
    'maxV here': lambda ev, o: meth(ev, o, 'maxV', freq(ev, 0), E(ev, o, 'D')),
    'printing': lambda ev, o: (meth(ev, o, 'getS', freq(ev, 1)), ev.callbuiltin('str', [o], {})),
    'copying': lambda ev, o: (meth(ev, o, 'getS', freq(ev, 1)), meth(ev, o, 'copy')),
    'Solution elsewhere': lambda ev, o: meth(ev, o, 'Solution', freq(ev, 1), E(ev, o, 'D')),
    'Solution at another impedance': lambda ev, o: meth(ev, o, 'Solution', freq(ev, 0), E(ev, o, 'D'),
                                                        Zbase=ev.sym('Z9', pos='+')),
    'flags': lambda ev, o: meth(ev, o, 'getS', freq(ev, 0), flags={'sNp': False}),
    'Get_internalSmatrix': lambda ev, o: meth(ev, o, 'Get_internalSmatrix', freq(ev, 1),
                                              list(ev.iterate(ev.getattr(o, 'ports')))),
    'VISWs elsewhere': lambda ev, o: meth(ev, o, 'VISWs', freq(ev, 1), E(ev, o, 'D')),
}
CIRC = ('Solution elsewhere', 'Solution at another impedance', 'flags', 'Get_internalSmatrix')


def r_sweep(ck, kind, order, how):
    def go(ev):
        ev.F.loose_abs = True
        ev.total = True
        o, _ = build(ev, kind)
        k = {'Zbase': ev.sym('Z2', pos='+')} if how == 'impedance' else {}
        ks = {**SWEEPS, **EXTRA}[order]
        s = meth(ev, o, 'getS', [freq(ev, j) for j in ks], **k)
        out = []
        for j, f in enumerate(ks):
            q, _ = build(ev, kind)
            out.append((f'matrix {j} (f{f} of {[f"f{x}" for x in ks]})', ev.getitem(s, j), meth(ev, q, 'getS', freq(ev, f), **k)))
        return out
    law(ck, 'sweep', f'{kind}, {order}{", " + how if how else ""}', fclass(ck, base(kind), 'getS'), go, limit=120)


CLOSE = {0: 4e7, 1: 4e7 + .25, 2: 4e7 + .125}


def r_close(ck, kind, what):
    """frequencies that are close to each other are still different ones"""
    def go(ev):
        ev.F.loose_abs = True
        ev.total = True
        ev.freqs = CLOSE
        o, _ = build(ev, kind)
        out = []
        if what == 'sweep':
            s = meth(ev, o, 'getS', [freq(ev, k) for k in (0, 1)])
        for j in (0, 1):
            q, _ = build(ev, kind)
            if what == 'sweep':
                out.append((f'matrix {j} of {[CLOSE[0], CLOSE[1]]}', ev.getitem(s, j), meth(ev, q, 'getS', freq(ev, j))))
            else:
                a, b = (meth(ev, x, 'maxV', freq(ev, j), E(ev, x)) for x in (o, q))
                a, b = ([x[0], plain(x[2])] for x in (a, b))
                out.append((f'maxV at {CLOSE[j]}', a, b))
        return out
    law(ck, 'close', f'{kind}, {what}', fclass(ck, base(kind), 'getS' if what == 'sweep' else 'maxV'), go, limit=120)


def r_history(ck, kind, h):
    def go(ev):
        ev.F.loose_abs = True
        ev.total = True
        o, _ = build(ev, kind)
        HISTORY[h](ev, o)
        q, _ = build(ev, kind)
        return [('S-matrix', meth(ev, o, 'getS', freq(ev, 0)), meth(ev, q, 'getS', freq(ev, 0))),
                ('S-matrix of another frequency', meth(ev, o, 'getS', freq(ev, 1)), meth(ev, q, 'getS', freq(ev, 1)))]
    law(ck, 'history', f'{kind}, {h}', fclass(ck, base(kind), 'getS'), go, limit=120)


def r_voltages(ck, kind, h, what):
    def go(ev):
        ev.F.loose_abs = True
        ev.total = True
        o, _ = build(ev, kind)
        HISTORY[h](ev, o)
        q, _ = build(ev, kind)
        if what == 'maxV':
            a, b = (meth(ev, x, 'maxV', freq(ev, 0), E(ev, x)) for x in (o, q))
            a, b = ([x[0], plain(x[2])] for x in (a, b))
        elif what == 'VISWs':
            a, b = (plain(meth(ev, x, 'VISWs', freq(ev, 0), E(ev, x))) for x in (o, q))
        else:
            a, b = (plain(meth(ev, x, 'Solution', freq(ev, 0), E(ev, x))) for x in (o, q))
        return [(what, a, b)]
    law(ck, 'voltages', f'{what} of {kind}, {h}', fclass(ck, base(kind), what), go, limit=30)


CHANGES = {
    'rfTRL': [('set L', lambda ev, o, v: meth(ev, o, 'set', L=v))],
    'rfRLC': [(f'set {k}', lambda ev, o, v, k=k: meth(ev, o, 'set', **{k: v})) for k in ('Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp')],
    'rfArcObj': [('set Larc', lambda ev, o, v: meth(ev, o, 'set', Larc=v))],
    'rfCircuit': [('set A Rs', lambda ev, o, v: meth(ev, o, 'set', 'A.Rs', v)),
                  ('set B Lp', lambda ev, o, v: meth(ev, o, 'set', 'B.Lp', v))],
    'rfCircuit nested': [('set A.A Rs', lambda ev, o, v: meth(ev, o, 'set', 'A.A.Rs', v)),
                         ('set B L', lambda ev, o, v: meth(ev, o, 'set', 'B.L', v))],
}


def r_present(ck, kind, name, after):
    fn = dict(CHANGES[kind])[name]

    def go(ev):
        ev.F.loose_abs = True
        ev.total = True
        o, _ = build(ev, kind)
        v = ev.sym('new', pos='+')
        HISTORY[after](ev, o)
        fn(ev, o, v)
        s = meth(ev, o, 'getS', [freq(ev, 1), freq(ev, 0)])
        q, _ = build(ev, kind)
        fn(ev, q, v)
        r = [meth(ev, q, 'getS', freq(ev, j)) for j in (1, 0)]
        return [(f'matrix {j}', ev.getitem(s, j), r[j]) for j in range(2)]
    law(ck, 'present', f'{kind}, {name}, {after}', fclass(ck, base(kind), 'getS'), go, limit=120)


def run(ck):
    for k in KINDS:
        ck.anchor(f'{k}.getS', fclass(ck, k, 'getS') is not None)
    kinds = KINDS + VARIANTS
    ck.pmap('sweep', r_sweep, [(k, o, h) for k in kinds for o in list(SWEEPS) + list(EXTRA) for h in ('', 'impedance')
                               if not (k == 'rfBase' and o in EXTRA)])
    ck.pmap('close', r_close, [(k, w) for k in kinds for w in ('sweep', 'maxV')])
    hist = [(k, h) for k in kinds for h in HISTORY
            if (h not in CIRC or base(k) == 'rfCircuit') and (h != 'VISWs elsewhere' or base(k) == 'rfTRL')]
    ck.pmap('history', r_history, hist)
    ck.pmap('voltages', r_voltages, [(k, h, w) for k, h in hist for w in ('maxV', 'Solution', 'VISWs')
                                     if (w != 'Solution' or base(k) == 'rfCircuit') and (w != 'VISWs' or base(k) == 'rfTRL')
                                     and not (k == 'rfCircuit table' and w != 'x') and h not in ('printing', 'copying')])
    ck.pmap('present', r_present, [(k, n, a) for k in CHANGES for n, _ in CHANGES[k]
                                   for a in ('getS elsewhere', 'sweep', 'maxV here')])
