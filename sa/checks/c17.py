"""C17: copies and pickles are complete and independent."""
from ..aev import Arr, Obj, Ref, AbsRaise
from ..laws import law, meth
from ..models import setup, freq, build, cls
from .c06 import circuit, table, look, rows, rlc, trl, outcome, free, ELEMENTS, new
from .c09 import fclass
from .c13 import base, plain

META = {
    'explanation': 'Heap analysis over value numbers: an object of every kind, brought into several states, is copied in '
                   'every way there is (copy method, copy.copy, copy.deepcopy, and the state a pickle keeps); the abstract heap '
                   'then tells which mutable cells both sides reach. What both sides show has to have the same value numbers, and '
                   'after a change of either side the other one has to show what an object shows that was never copied.',
    'rules': {
        'separate': 'no list, dictionary, array buffer or object can be reached from both sides',
        'complete': 'ports, positions, S-matrices, maximum voltages and documented data are those of the original',
        'independent': 'a change of either side leaves the other one as it was',
    },
    'assumptions': ['pickling keeps what __getstate__/__setstate__ or the attribute dictionary say; objects holding local functions '
                    '(rfTRL and circuits with lines) cannot be pickled at all', 'functions are immutable'],
    'technique': 'abstract interpretation (heap reachability and effects over value numbers, with trace partitioning)',
}

WAYS = ('copy method', 'copy.copy', 'copy.deepcopy', 'pickle')


def pickled(ev, v, memo):
    """what comes back from a pickle"""
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Obj):
        g = v.cls.find('__getstate__')
        state = ev.callfunc(g, v, [], {}, v.cls) if g else dict(v.attrs)
        r = memo[id(v)] = Obj(v.cls)
        state = pickled(ev, state, memo)
        m = v.cls.find('__setstate__')
        if m:
            ev.callfunc(m, r, [state], {}, r.cls)
        elif isinstance(state, dict):
            r.attrs.update(state)
        return r
    if isinstance(v, Ref) and v.kind not in ('class', 'builtin', 'ext', 'module'):
        raise AbsRaise('PicklingError', (repr(v),), ev.where())
    if isinstance(v, Arr):
        r = memo[id(v)] = v.copy()
        return r
    if isinstance(v, list):
        r = memo[id(v)] = []
        r.extend(pickled(ev, x, memo) for x in v)
        return r
    if isinstance(v, dict):
        r = memo[id(v)] = {}
        for k, x in v.items():
            r[k] = pickled(ev, x, memo)
        return r
    if isinstance(v, tuple):
        return tuple(pickled(ev, x, memo) for x in v)
    if isinstance(v, set):
        return set(v)
    return v


def duplicate(ev, o, way):
    if way == 'copy method':
        return meth(ev, o, 'copy')
    if way == 'pickle':
        return pickled(ev, o, {})
    return ev.copyval(o, way == 'copy.deepcopy', {})


def reach(v, path='', out=None, seen=None):
    """mutable cells reachable from a value: id -> path"""
    out = {} if out is None else out
    if isinstance(v, Obj):
        if id(v) in out:
            return out
        out[id(v)] = path
        for k, x in v.attrs.items():
            reach(x, f'{path}.{k}' if path else k, out)
    elif isinstance(v, Arr):
        out.setdefault(id(v.buf), path)
    elif isinstance(v, (list, dict, set)):
        if id(v) in out:
            return out
        out[id(v)] = path
        for k, x in (v.items() if isinstance(v, dict) else enumerate(v)):
            reach(x, f'{path}[{k!r}]', out)
    elif isinstance(v, tuple):
        for k, x in enumerate(v):
            reach(x, f'{path}[{k}]', out)
    elif isinstance(v, Ref) and v.recv is not None:
        reach(v.recv, path + '()', out)
    return out


# documented data of the classes: compared where the original has it
DATA = {
    'rfObject': ('fs', 'Ss', 'Portnames', 'Zbase', 'funit', 'fscale', 'interp', 'flim', 'Zcs', 'Gms', 'markers', 'variables', 'part',
                 'numbering', 'shape', 'type', 'alias', 'touchstone', 'interpkws', 'kwargs', 'args'),
    'rfTRL': ('L', 'dx', 'Zbase', 'f', 'OD', 'ID', 'rho', 'qTL', 'murTL', 'etarTL', 'epsrTL', 'sigma', 'rhoO', 'rhoI', 'kwargs', 'args'),
    'rfRLC': ('Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp', 'Zbase', 'kwargs', 'args'),
    'rfArcObj': ('Larc', 'Zbase', 'kwargs', 'args'), 'rfCoupler': ('f0Hz', 'kc', 'kdir', 'Zbase', 'kwargs', 'args'),
    'rfBase': ('fs', 'Ss', 'Zbase', 'kwargs', 'args'), 'rfCircuit': ('Zbase', 'Portnames', 'eqns', 'waves', 'nodes', 'kwargs', 'args'),
    'rfGTL': ('Zbase', 'variables', 'objkey', 'path2model', 'Portnames', 'relpos'),
}


def data(ev, o, name):
    out = []
    for k in DATA[name]:
        v = o.attrs.get(k)
        if isinstance(v, (dict, list, tuple, Arr, str, int)) or v is None or ev.isnum(v):
            out.append((k, plain(v) if not isinstance(v, Arr) else v if v.off else []))
    return out


def tables(s):
    return s in ('new', 'empty', 'named', 'table', 'evaluated', 'interpolated', 'read')


def get(ev, kind):
    """an object by the name of its kind and state, and its class"""
    if kind.startswith('rfCircuit:'):
        return circuit(ev, kind[10:]), 'rfCircuit'
    if kind.startswith('rfObject:'):
        return table(ev, kind[9:]), 'rfObject'
    return build(ev, kind.split(':')[0])[0], base(kind.split(':')[0])


STATES = {'new': lambda ev, o: None, 'evaluated': lambda ev, o: outcome(ev, lambda: meth(ev, o, 'getS', freq(ev, 0))),
          'between': lambda ev, o: outcome(ev, lambda: meth(ev, o, 'getS', freq(ev, 2))),
          'voltages': lambda ev, o: outcome(ev, lambda: meth(ev, o, 'maxV', freq(ev, 0), {p: ev.sym(f'e{k}', 'complex') for k, p in enumerate(free(ev, o))}))}


def changed(ev, o):
    """a change before the copy is taken"""
    v = ev.sym('before', pos='+')
    n = o.cls.name
    if n == 'rfObject':
        f = lambda: meth(ev, o, 'convert2newZbase', v)
    elif n == 'rfCircuit':
        f = lambda: meth(ev, o, 'set', 'A.Rs', v)
    else:
        f = lambda: meth(ev, o, 'set', **{{'rfTRL': 'L', 'rfArcObj': 'Larc', 'rfCoupler': 'f0Hz', 'rfBase': 'Zbase'}.get(n, 'Rs'): v})
    outcome(ev, f)


STATES['changed'] = changed


def freqs(ev, kind):
    ev.total = ev.F.loose_abs = True
    if kind.startswith('rfGTL'):
        ev.F.log_pos = True
    ev.freqs = {k: ev.F.num((4 + k) * 10000000) for k in range(6)}
    if kind.startswith('rfTRL table'):
        ev.freqs[1] = ev.F.num(41000000)


def show(ev, o, name, full=True):
    out = look(ev, o, '', full)
    if name == 'rfObject':
        out += [('entries', rows(ev, o)), ('value between', outcome(ev, lambda: meth(ev, o, 'getS', ev.F.num(45000000))))]
    return out


def r_separate(ck, kind, state, way):
    def go(ev):
        freqs(ev, kind)
        o, name = get(ev, kind)
        STATES[state](ev, o)
        try:
            c = duplicate(ev, o, way)
        except AbsRaise as e:
            if e.name == 'PicklingError':
                return []
            raise
        a, b = reach(o), reach(c)
        both = sorted(a[k] or 'the object' for k in a if k in b)
        return [('cells reached from both sides', both, []), ('a new object', c is not o and isinstance(c, Obj) and c.cls is o.cls, True)]
    law(ck, 'separate', f'{kind}, {state}, {way}', fclass(ck, base(kind.split(':')[0]), '__deepcopy__'), go, limit=60, vacuous='not picklable')


def r_complete(ck, kind, state, way):
    def go(ev):
        freqs(ev, kind)
        o, name = get(ev, kind)
        STATES[state](ev, o)
        d = data(ev, o, name)
        try:
            c = duplicate(ev, o, way)
        except AbsRaise as e:
            if e.name == 'PicklingError':
                return []
            raise
        out = [(k, w, v) for (k, v), (_, w) in zip(d, data(ev, c, name))]
        # the solution at hand as well
        for k in ('f', 'S'):
            v, w = ev.getattr(o, k, None) if k in o.attrs else None, c.attrs.get(k)
            if v is not None and w is not None:
                out.append((k, w, v))
        return out + [(k, w, v) for (k, v), (_, w) in zip(show(ev, o, name), show(ev, c, name))]
    law(ck, 'complete', f'{kind}, {state}, {way}', fclass(ck, base(kind.split(':')[0]), '__deepcopy__'), go, limit=60, vacuous='not picklable')


def changes(name, kind):
    """name -> change of an object"""
    s = lambda ev, n='new': ev.sym(n, pos='+')
    out = {}
    if name == 'rfCircuit':
        if kind.startswith('rfCircuit:'):
            out = {
                'set': lambda ev, c: meth(ev, c, 'set', 'A.Rs', s(ev)),
                'block set': lambda ev, c: meth(ev, ev.getattr(c, 'blocks')['A']['object'], 'set', Rs=s(ev)),
                'evaluation with parameters': lambda ev, c: meth(ev, c, 'getS', freq(ev, 0), params={'A': {'Rs': s(ev)}}),
                'block replaced': lambda ev, c: meth(ev, c, 'addblock', 'A', rlc(ev, 'w')),
                'other frequency': lambda ev, c: meth(ev, c, 'getS', freq(ev, 3)),
            }
            if 'evaluated' not in kind:
                out.update({
                    'block added': lambda ev, c: meth(ev, c, 'addblock', 'N', rlc(ev, 'v'), ports=['s', 'p'], relpos=ev.F.num(5)),
                    'ports connected': lambda ev, c: meth(ev, c, 'connect', free(ev, c)[0], free(ev, c)[-1], 'N1'),
                    'deembedded': lambda ev, c: meth(ev, c, 'deembed', {free(ev, c)[0]: 'in'}),
                })
            out['port terminated'] = lambda ev, c: meth(ev, c, 'terminate', free(ev, c)[0], Z=ev.sym('Zv', 'complex'))
            if 'terminated' in kind:
                out['termination changed'] = lambda ev, c: meth(ev, c, 'terminate', 'B.y', Z=ev.sym('Zv', 'complex'))
            if 'nested' in kind:
                out['deep set'] = lambda ev, c: meth(ev, c, 'set', 'I.X.Rs', s(ev))
                out['deep block replaced'] = lambda ev, c: meth(ev, c, 'addblock', 'I.X', rlc(ev, 'w'))
                out['deep object set'] = lambda ev, c: meth(ev, ev.getattr(ev.getattr(c, 'blocks')['I']['object'], 'blocks')['X']['object'], 'set', Rs=s(ev))
            if 'array' in kind:
                def arr(ev, c):
                    a = ev.getattr(c, 'blocks')['C']['object']
                    ev.setitem(a, (0, 0), ev.sym('w', 'complex'))
                    ev.setattr(c, 'S', None)
                out['entry of an array block'] = arr
        return out
    if name == 'rfObject':
        out = {
            'entry added': lambda ev, o: meth(ev, o, 'setS', freq(ev, 3), ev.arr('N', (2, 2))),
            'renormalised': lambda ev, o: meth(ev, o, 'convert2newZbase', s(ev)),
            'value between': lambda ev, o: meth(ev, o, 'getS', ev.F.num(45000000)),
        }
        if kind not in ('rfObject:new', 'rfObject:empty'):
            out.update({
                'entry assigned': lambda ev, o: meth(ev, o, '__setitem__', 0, (ev.F.num(11000000), ev.arr('N', (2, 2)))),
                'ports sorted': lambda ev, o: meth(ev, o, 'sortports', ['p2', 'p1']),
                'deembedded': lambda ev, o: meth(ev, o, 'deembed', {'p1': (s(ev, 'len'), s(ev, 'Zl'))}),
                'value written': lambda ev, o: (ev.setitem(ev.getattr(o, 'Ss'), (0, 0, 1), ev.sym('w', 'complex')), ev.setattr(o, 'interpOK', False)),
                'port renamed': lambda ev, o: ev.setitem(ev.getattr(o, 'ports'), 0, 'w'),
                'position written': lambda ev, o: ev.setitem(ev.getattr(o, 'xpos'), 0, s(ev, 'xw')),
            })
        return out
    if name == 'rfGTL':
        return {'other frequency': lambda ev, c: meth(ev, c, 'getS', freq(ev, 3)), 'evaluated': lambda ev, c: meth(ev, c, 'getS', freq(ev, 0))}
    kws = [k for k in ELEMENTS.get(kind.split(':')[0], ELEMENTS.get(name, ())) if k != 'dx']
    for k in kws[:3]:
        out[f'set {k}'] = lambda ev, o, k=k: meth(ev, o, 'set', **{k: new(ev, k)})
        if name == 'rfRLC':
            out[f'evaluation with {k}'] = lambda ev, o, k=k: meth(ev, o, 'getS', freq(ev, 0), params={k: new(ev, k)})
    out['other frequency'] = lambda ev, o: meth(ev, o, 'getS', freq(ev, 3))
    out['port renamed'] = lambda ev, o: ev.setitem(ev.getattr(o, 'ports'), 0, 'w')
    return out


def r_independent(ck, kind, state, way, side, part):
    """all changes one after the other on one side, then a look at the other"""
    def go(ev):
        freqs(ev, kind)
        o, name = get(ev, kind)
        q, _ = get(ev, kind)
        STATES[state](ev, o)
        if state == 'changed':
            changed(ev, q)
        try:
            c = duplicate(ev, o, way)
        except AbsRaise as e:
            if e.name == 'PicklingError':
                return []
            raise
        x, y = (c, o) if side == 'copy' else (o, c)
        done = []
        for what, f in list(changes(name, kind).items())[part]:
            if not (outcome(ev, lambda: (f(ev, x), True)[1]) is True):
                continue
            done.append(what)
        if not done:
            return []
        tag = f' (after {", ".join(done)} of the {side})'
        return [(k + tag, v, w) for (k, v), (_, w) in zip(show(ev, y, name, False), show(ev, q, name, False))]
    law(ck, 'independent', f'{kind}, {state}, {way}, changes{f" from {part.start + 1}" if part.start else ""} of the {side}', fclass(ck, base(kind.split(':')[0]), '__deepcopy__'), go,
        limit=60, vacuous='not picklable or change refused')


KINDS = ['rfRLC', 'rfRLC series', 'rfTRL', 'rfTRL losses', 'rfTRL varying', 'rfTRL table', 'rfArcObj', 'rfCoupler', 'rfBase', 'rfGTL model',
         'rfCircuit terminated', 'rfCircuit table']
CIRC = ['rfCircuit:' + s for s in ('one block', 'two blocks', 'array', 'nested', 'connected', 'junction, terminated', 'terminated, evaluated')]
TABS = ['rfObject:' + s for s in ('empty', 'table', 'read')]


def run(ck):
    for k in ('rfBase', 'rfCircuit', 'rfTRL', 'rfRLC', 'rfObject', 'rfGTL'):
        for m in ('copy', '__copy__', '__deepcopy__'):
            ck.anchor(f'{k}.{m}', fclass(ck, k, m) is not None)
    allk = [(k, s) for k in KINDS + CIRC + TABS for s in STATES
            if not ('evaluated' in k and s == 'evaluated') and not (s == 'between' and not k.startswith('rfObject'))]
    ck.pmap('separate', r_separate, [(k, s, w) for k, s in allk for w in WAYS])
    ck.pmap('complete', r_complete, [(k, s, w) for k, s in allk for w in WAYS])
    ck.pmap('independent', r_independent, [
        (k, s, w, side, slice(n, n + 3)) for k, s in allk for w in WAYS for side in ('copy', 'original')
        if s in ('new', 'evaluated', 'between', 'changed') and not (w == 'copy.copy' and s != 'evaluated') and not (w == 'pickle' and k.startswith('rfTRL'))
        for n in range(0, len(changes(base(k.split(':')[0]), k)), 3)])
