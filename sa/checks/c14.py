"""C14: diagnostics never influence results and never fail."""
import importlib
import time
from ..aev import AbsRaise
from ..core import Check
from ..laws import law, meth
from ..models import setup, freq, build, cls, make, KINDS, VARIANTS
from .c06 import circuit, rlc, trl, look, pairs, free, outcome, STATES
from .c09 import fclass
from .c13 import HISTORY, base
from .c14lint import regions

META = {
    'explanation': 'The diagnostics of the package (the logit switches, the messages, the helpers of config.py that indent and print '
                   'arguments) are interpreted abstractly with the logger at every level: the programs of the other properties '
                   '(building, evaluating, changing, copying, reading, writing, plotting; accepted and rejected calls) are '
                   'evaluated twice in one partition, with diagnostics off and with diagnostics on, and everything they show has '
                   'to have the same value numbers, or end in the same error. In addition an effect analysis of every statement '
                   'that only runs with diagnostics on shows that it changes nothing that other statements read.',
    'rules': {
        'twin': 'a program shows the same, or ends in the same error, with diagnostics at any level as without',
        'level': 'every level can be chosen by its name and by its number, and again',
        'region': 'code that only runs with diagnostics on assigns nothing that is read elsewhere, changes no object that exists '
                  'without it, and does not leave the function',
        'printing': 'every object can be printed at every level of detail, in every state, and is the same afterwards',
        'lookup': 'looking for an object of a circuit gives the same, found or not, with and without diagnostics',
        'switch': 'the switches are only read outside of config.py',
    },
    'assumptions': ['the logging module does not fail for a text', 'the programs analysed stand for all calls'],
    'technique': 'abstract interpretation (non-interference of the diagnostics over value numbers, with trace partitioning) and '
                 'effect analysis of the code controlled by the switches',
}

# (check, rule, how many of its programs in the quick tier)
SOURCES = [('c13', 'history', 60), ('c13', 'voltages', 30), ('c13', 'sweep', 10), ('c08', None, 40), ('c06', 'circuit', 60),
           ('c06', 'element', 20), ('c06', 'table', 30), ('c07', None, 20), ('c09', None, 20), ('c11', None, 40), ('c12', None, 16),
           ('c16', None, 40), ('c17', None, 24), ('c21', None, 24), ('c10', None, 16), ('c03', None, 10), ('c02', None, 16)]
LEVELS = ('DEBUG', 'DEBUG', 'DEBUG', 'INFO', 'DEBUG', 'DEBUG', 'WARNING', 'DEBUG', 'DEBUG', 'ERROR', 'DEBUG', 'CRITICAL')
START = time.time()
BUDGET = 420


class Collect(Check):
    """takes the programs of another check without running them"""
    def __init__(self, *a):
        super().__init__(*a)
        self.programs = []

    def pmap(self, name, fn, items, nproc=8):
        self.programs += [(name, fn, it) for it in items]

    def rule(self, name, fn, *a):
        self.programs.append((name, fn, a))


def shown(fn, ev):
    try:
        return [(w, [g, x]) for w, g, x in fn(ev)]
    except AbsRaise as e:
        return f'ends in {e.name}'


def twin(level):
    def hook(ck, rule, construct, func, fn, limit, steps):
        def go(ev):
            a = shown(fn, ev)
            n, ev.F.blurred = ev.F.blurred, False
            ev.diagnostics(level)
            b = shown(fn, ev)
            ev.F.blurred = ev.F.blurred or n
            if isinstance(a, str) or isinstance(b, str):
                return [('outcome', b if isinstance(b, str) else 'accepted', a if isinstance(a, str) else 'accepted')]
            return [(w, g, h) for (w, g), (_, h) in zip(b, a)]
        law(ck.real, 'twin', f'{ck.source} {rule}: {construct}, {level}', func, go, limit=min(limit, 24), steps=steps * 3,
            vacuous='nothing to compare')
    return hook


def r_twin(ck, source, k, level):
    if time.time() - START > BUDGET and ck.tier == 'quick':
        ck.notes.setdefault('left out for lack of time', []).append(f'{source} {k}')
        return
    name, fn, item = programs(ck, source)[k]
    sub = Check(ck.pid, ck.pkg, ck.tier)
    sub.hook, sub.real, sub.source = twin(level), ck, source.upper()
    # groups of calls are taken one by one
    if source == 'c06' and name == 'circuit':
        for n in item[0]:
            fn(sub, [n], *item[1:])
    else:
        fn(sub, *item)


_programs = {}


def programs(ck, source):
    if source not in _programs:
        c = Collect(ck.pid, ck.pkg, ck.tier)
        importlib.import_module(f'sa.checks.{source}').run(c)
        _programs[source] = c.programs
    return _programs[source]


def r_level(ck, level, then):
    def go(ev):
        ev.diagnostics(level)
        n = ev.loglevel
        ev.diagnostics('INFO')
        ev.diagnostics(then)
        m = ev.loglevel
        num = lambda v: ev.LEVELS[v] if isinstance(v, str) else v
        return [('level', n, num(level)), ('level after another', m, num(then))]
    law(ck, 'level', f'{level}, then {then}', ck.pkg.modules['config'].funcs.get('setLogLevel'), go)


def texts(ev, o):
    """the texts of an object: problems found"""
    out = []

    def one(what, fn):
        try:
            t = fn()
            out.append((what, t if t is None else isinstance(t, str), True))
        except AbsRaise as e:
            out.append((what, f'ends in {e.name} at {e.where}', True))
    one('str', lambda: ev.callbuiltin('str', [o], {}))
    if o.cls.find('__repr__'):
        one('repr', lambda: meth(ev, o, '__repr__'))
    for full in (0, 1, 2):
        if o.cls.find('asstr'):
            one(f'asstr({full})', lambda: meth(ev, o, 'asstr', full))
        elif o.cls.find('__str__') and len(o.cls.find('__str__').node.args.args) > 1:
            one(f'__str__({full})', lambda: meth(ev, o, '__str__', full))
    return out


def shape(ev, state):
    """circuits to print"""
    if state in STATES:
        return circuit(ev, state)
    if state == 'empty':
        setup(ev)
        return ev.construct(cls(ev, 'rfCircuit'), [], dict(Zbase=ev.sym('Z1', pos='+')))
    c = circuit(ev, 'two blocks' if 'chain' not in state else 'connected')
    m = lambda f, *a, **k: meth(ev, c, f, *a, **k)
    if 'junction of a junction' in state:
        m('connect', 'A.p', 'B.x', 'n')
        m('connect', 'n', 'A.s', 'nn')
    if 'deembedded' in state:
        m('deembed', {free(ev, c)[-1]: 'in'})
    if 'array' in state:
        m('addblock', 'C', ev.arr('T', (2, 2)), ports=['a', 'b'], relpos=ev.F.num(2))
    if 'one object twice' in state:
        o = rlc(ev, 'o')
        m('addblock', 'P', o, ports=['s', 'p'])
        m('addblock', 'Q', o, ports=['s', 'p'], relpos=ev.F.num(5))
    if 'replaced' in state:
        m('addblock', 'A', ev.arr('T', (2, 2)))
    if 'set' in state:
        m('set', 'A.Rs', ev.sym('Rv', pos='+'))
    if 'params' in state:
        m('addblock', 'V', rlc(ev, 'v'), params={'Rs': ev.sym('Rp', pos='+')})
    if 'nested' in state:
        d = ev.construct(cls(ev, 'rfCircuit'), [], dict(Zbase=ev.sym('Z1', pos='+')))
        meth(ev, d, 'addblock', 'I', c, relpos=ev.F.num(3))
        if 'twice' in state:
            meth(ev, d, 'addblock', 'J', c)
        if 'deeper' in state:
            e = ev.construct(cls(ev, 'rfCircuit'), [], dict(Zbase=ev.sym('Z1', pos='+')))
            meth(ev, e, 'addblock', 'D', d)
            d = e
        c = d
    p = free(ev, c)
    ex = lambda: {q: ev.sym(f'E{k}', 'complex') for k, q in enumerate(p)}
    if 'evaluated' in state:
        meth(ev, c, 'getS', freq(ev, 0))
    if 'maximum voltages' in state:
        meth(ev, c, 'maxV', freq(ev, 0), ex())
    if 'solution' in state:
        meth(ev, c, 'Solution', freq(ev, 0), ex())
    if 'swept' in state:
        meth(ev, c, 'getS', [freq(ev, 0), freq(ev, 1)])
    if 'sorted' in state:
        meth(ev, c, 'sortports') if c.cls.find('sortports') else None
    if 'copied' in state:
        c = meth(ev, c, 'copy')
    return c


SHAPES = STATES + ['empty'] + [
    a + b for a in ('two', 'chain', 'junction of a junction', 'deembedded', 'chain, deembedded', 'array', 'one object twice', 'replaced', 'set',
                    'params', 'nested', 'nested array', 'nested, chain', 'nested twice', 'nested deeper', 'nested deeper, array')
    for b in ('', ', evaluated', ', maximum voltages', ', solution', ', swept', ', copied', ', copied, evaluated')]
FIXED = {k: (4 + k) * 10000000 for k in range(6)}


def r_printing(ck, kind, h):
    def go(ev):
        ev.total = ev.F.loose_abs = True
        ev.freqs = {k: ev.F.num(v) for k, v in FIXED.items()}
        o, q = build(ev, kind)[0], build(ev, kind)[0]
        if h:
            try:
                HISTORY[h](ev, o)
                HISTORY[h](ev, q)
            except AbsRaise:
                return []
        return texts(ev, o) + pairs(look(ev, o), look(ev, q))
    law(ck, 'printing', f'{kind}{", " + h if h else ""}', fclass(ck, base(kind), '__str__'), go, limit=40, vacuous='nothing to print')


def r_printing_circuit(ck, state):
    def go(ev):
        ev.total = ev.F.loose_abs = True
        ev.freqs = {k: ev.F.num(v) for k, v in FIXED.items()}
        try:
            c, d = shape(ev, state), shape(ev, state)
        except AbsRaise:
            return []
        return texts(ev, c) + pairs(look(ev, c), look(ev, d))
    law(ck, 'printing', f'rfCircuit {state}', fclass(ck, 'rfCircuit', '__str__'), go, limit=40, vacuous='nothing to print')


PLACES = ['A', 'Q', 'A.s', 'I', 'I.X', 'I.Q', 'I.X.s', 'I.Q.R', 'C', 'C.a', '', '.', 'A.', 'D', 'D.I', 'D.I.A', 'D.Q', 'D.I.Q']


def r_lookup(ck, state, level):
    f = fclass(ck, 'rfCircuit', 'findObj')

    def go(ev):
        ev.total = ev.F.loose_abs = True
        ev.freqs = {k: ev.F.num(v) for k, v in FIXED.items()}
        c = shape(ev, state)
        find = lambda: [outcome(ev, lambda: getattr(meth(ev, c, 'findObj', x), 'cls', None)) for x in PLACES]
        a = find()
        ev.diagnostics(level)
        b = find()
        name = lambda v: v if v is None or isinstance(v, str) else v.name
        return [(f'findObj({x!r})', name(v), name(w)) for x, v, w in zip(PLACES, b, a)]
    law(ck, 'lookup', f'{state}, {level}', f, go, limit=40)


def run(ck):
    cfg = ck.pkg.modules.get('config')
    for f in ('setLogLevel', 'logident', 'ident'):
        ck.anchor(f'config.{f}', cfg is not None and f in cfg.funcs)
    regions(ck)
    levels = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL', 10, 15, 20, 30, 40, 50]
    ck.pmap('level', r_level, [(a, b) for a in levels for b in ('DEBUG', 'CRITICAL', 30)])
    ck.pmap('printing', r_printing, [(k, h) for k in KINDS + VARIANTS for h in [''] + list(HISTORY)])
    ck.pmap('printing', r_printing_circuit, [(s,) for s in SHAPES])
    ck.pmap('lookup', r_lookup, [(s, v) for s in ('two blocks', 'array', 'nested', 'nested array', 'nested deeper', 'connected, evaluated')
                                 for v in ('DEBUG', 'INFO')])
    items = []
    for source, rule, n in SOURCES:
        ps = [k for k, p in enumerate(programs(ck, source)) if rule in (None, p[0])]
        if ck.tier == 'quick':
            # spread over the programs, the same ones every time
            ps = [ps[i * len(ps) // n] for i in range(n)] if len(ps) > n else ps
        items += [(source, k, LEVELS[i % len(LEVELS)]) for i, k in enumerate(ps)]
    # long ones do not come last
    ck.pmap('twin', r_twin, items)
