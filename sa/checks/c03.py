"""C03: unknowns, equations, ports and port positions of a circuit stay in step."""
import itertools

from ..aev import Arr, AbsRaise
from ..laws import law, meth, same
from ..models import setup, freq, cls
from .c06 import rlc, trl
from .c09 import fclass

META = {
    'explanation': 'Abstract interpretation of all short sequences of building operations (typestate of the circuit): after every '
                   'completed operation the number of rows and columns of the circuit matrix, the list of equations, the incident '
                   'and reflected waves, the free ports and their positions are compared with each other and with the ports and '
                   'positions a bookkeeping by the meaning of the operations gives. Positions and values are symbols.',
    'rules': {
        'history': 'the invariant after every operation of all sequences of building operations of the bounded length',
        'names': 'announced port names: order of ports and positions after the evaluation',
        'size': 'the invariant for other numbers of ports and blocks',
    },
    'assumptions': ['histories of up to four operations on a circuit of up to three blocks stand for all'],
    'technique': 'abstract interpretation (typestate of the circuit along all bounded call sequences, over value numbers)',
}


class Shadow:
    """ports and positions by the meaning of the operations"""

    def __init__(self):
        self.pos, self.nodes, self.free, self.k = {}, [], [], 0


def pos(ev, x):
    return ev.F.num(x)


def roots(sh, ps):
    """positions of joined ports; None when one is not known"""
    out = []
    for p in ps:
        v = sh.pos.get(p)
        v = roots(sh, v) if isinstance(v, set) else None if v is None else [v]
        if v is None:
            return None
        out += v
    return out


def invariant(ev, c, sh, tag):
    g = lambda a: c.attrs.get(a)
    ports = list(ev.iterate(ev.getattr(c, 'ports')))
    xpos = list(ev.iterate(ev.getattr(c, 'xpos')))
    out = [(f'free ports {tag}', sorted(ports), sorted(sh.free)), (f'one position per port {tag}', len(xpos), len(ports)),
           (f'size {tag}', ev.callbuiltin('len', [c], {}), len(sh.free))]
    for p, x in zip(ports, xpos):
        if p not in sh.pos:
            continue
        want = sh.pos[p]
        if isinstance(want, set):         # the position of one of the joined ports
            w = roots(sh, want)
            if w and not any(same(x, v) for v in w):
                out.append((f'position of {p} {tag}', x, w))
        else:
            out.append((f'position of {p} {tag}', x, want))
    M, eqns, waves = g('M'), g('eqns'), g('waves')
    if isinstance(M, Arr) and M.ndim == 2:
        if isinstance(eqns, list):
            out.append((f'rows per equation {tag}', M.shape[0], len(eqns)))
        if isinstance(waves, list):
            out.append((f'columns per wave {tag}', M.shape[1], len(waves)))
    if isinstance(waves, list) and all(isinstance(w, str) for w in waves):
        a = sorted(w[2:] for w in waves if w.startswith('->'))
        b = sorted(w[2:] for w in waves if w.startswith('<-'))
        out += [(f'incident and reflected waves {tag}', a, b), (f'each wave once {tag}', len(set(waves)), len(waves)),
                (f'waves of free ports {tag}', [p for p in ports if p not in a], [])]
    return out


# operations: name -> fn(ev, circuit, shadow) -> False when it does not apply
def o_add2(ev, c, sh):
    n = f'A{sh.k}'
    sh.k += 1
    r = pos(ev, 100 + sh.k)
    meth(ev, c, 'addblock', n, rlc(ev, n), ports=['s', 'p'], relpos=r)
    for q in ('s', 'p'):
        sh.pos[f'{n}.{q}'] = r
        sh.free.append(f'{n}.{q}')


def o_line(ev, c, sh):
    n = f'L{sh.k}'
    sh.k += 1
    r = pos(ev, 200 + sh.k)
    o = trl(ev, n)
    meth(ev, c, 'addblock', n, o, ports=['b', 'a'], relpos=r)
    for q, x in zip(('b', 'a'), ev.iterate(ev.getattr(o, 'xpos'))):
        sh.pos[f'{n}.{q}'] = ev.F.add(ev.F.num(r), ev.F.num(x))
        sh.free.append(f'{n}.{q}')


def o_array(ev, c, sh, N=3):
    n = f'T{sh.k}'
    sh.k += 1
    r = pos(ev, 300 + sh.k)
    meth(ev, c, 'addblock', n, ev.arr(f'S{n}', (N, N)), relpos=r)
    for k in range(1, N + 1):
        sh.pos[f'{n}.{k}'] = r
        sh.free.append(f'{n}.{k}')


def o_one(ev, c, sh):
    return o_array(ev, c, sh, 1)


def join(*ks, new=False):
    def f(ev, c, sh):
        n = len(sh.free)
        if any(not -n <= k < n for k in ks):
            return False
        ps = [sh.free[k] for k in ks]
        if len(set(ps)) < len(ps):
            return False
        args = list(ps)
        if new:
            nm = f'n{sh.k}'
            sh.k += 1
            args.insert(len(args) // 2 + (1 if new == 'last' else 0), nm)
        meth(ev, c, 'connect', *args)
        for p in ps:
            sh.free.remove(p)
        if new:
            sh.pos[nm] = set(ps)
            sh.free.append(nm)
    return f


def term(k, **kw):
    def f(ev, c, sh):
        if len(sh.free) < 1 or not -len(sh.free) <= k < len(sh.free):
            return False
        p = sh.free[k]
        meth(ev, c, 'terminate', p, **{a: ev.sym(f'z{a}', 'complex') for a in kw or ('Z',)})
        sh.free.remove(p)
        sh.nodes.append(p)
    return f


def again(ev, c, sh):
    if not sh.nodes:
        return False
    meth(ev, c, 'terminate', sh.nodes[-1], Y=ev.sym('ya', 'complex'))


def deembed(ev, c, sh):
    if len(sh.free) < 1:
        return False
    nm = f'i{sh.k}'
    sh.k += 1
    p = sh.free[0]
    meth(ev, c, 'deembed', {p: nm})
    sh.free.remove(p)
    sh.free.append(nm)
    sh.pos[nm] = {p}


def deembed2(ev, c, sh):
    if len(sh.free) < 3:
        return False
    nm = f'i{sh.k}'
    sh.k += 1
    p, q, r = sh.free[-1], sh.free[0], sh.free[1]
    meth(ev, c, 'deembed', {p: nm}, {q: r})
    for x in (p, q, r):
        sh.free.remove(x)
    sh.free.append(nm)
    sh.pos[nm] = {p}


def replace(ev, c, sh):
    b = [k for k in ev.getattr(c, 'blocks') if k.startswith('A')]
    if not b:
        return False
    meth(ev, c, 'addblock', b[0], rlc(ev, 'rep'))


def evaluate(ev, c, sh):
    if not sh.free or any(w.startswith('i') for w in sh.free):
        return False
    try:
        meth(ev, c, 'getS', freq(ev, 0))
    except AbsRaise:            # not a completed operation
        return False
    sh.done = True


OPS = {
    'add element': o_add2, 'add line': o_line, 'add array': o_array, 'add one port': o_one,
    'connect first two': join(0, 1), 'connect last and first': join(-1, 0), 'connect first, third and last': join(0, 2, -1),
    'connect one to a new port': join(1, new=True), 'connect two to a new port': join(0, -1, new=True), 'connect two, new port last': join(-1, 1, new='last'),
    'terminate first': term(0), 'terminate second': term(1, RC=1), 'terminate last': term(-1, Y=1), 'terminate again': again,
    'deembed': deembed, 'deembed through': deembed2, 'replace': replace, 'evaluate': evaluate,
}
# after an evaluation only these can follow (the others are a documented limit)
AFTER = ('terminate first', 'terminate second', 'terminate last', 'terminate again', 'replace', 'evaluate')
START = {'empty': (), 'element': ('add element',), 'element and array': ('add element', 'add array'), 'line and element': ('add line', 'add element')}


def play(ev, start, seq):
    setup(ev)
    ev.freqs = {0: ev.F.num(40000000)}
    c = ev.construct(cls(ev, 'rfCircuit'), [], dict(Zbase=ev.sym('Z1', pos='+')))
    sh = Shadow()
    sh.done = False
    for n in START[start]:
        OPS[n](ev, c, sh)
    out = []
    for k, n in enumerate(seq):
        if sh.done and n not in AFTER:
            return None, k
        before = (list(sh.free), sh.done)
        if OPS[n](ev, c, sh) is False:
            return None, k
        # (sequences that share a beginning: its invariant is seen once)
        if k == len(seq) - 1:
            out = invariant(ev, c, sh, f'after {", ".join(START[start] + tuple(seq))}')
    return out, len(seq)


def r_history(ck, start, first, second, depth):
    """all sequences that begin with the given operations"""
    def go(ev):
        ev.total = ev.F.loose_abs = True
        out = []

        def walk(seq):
            r, _ = play(ev, start, seq)
            if r is None:
                return
            out.extend(r)
            if len(seq) < depth:
                for n in OPS if len(seq) > 1 else (second,) if second else ():
                    walk(seq + (n,))
        walk((first,))
        return out
    m = 'connect' if first.startswith('connect') else 'terminate' if first.startswith('term') else 'deembed' if first.startswith('de') else \
        'getS' if first == 'evaluate' else 'addblock'
    law(ck, 'history', f'{first}, then {second or "nothing"}{" and all others" if second else ""}, on {start}', fclass(ck, 'rfCircuit', m), go, limit=20, steps=60000000, vacuous='operation does not apply')


def r_names(ck, order, n, what):
    """announced names decide the order of ports and of their positions"""
    def go(ev):
        ev.total = ev.F.loose_abs = True
        setup(ev)
        ev.freqs = {0: ev.F.num(40000000), 1: ev.F.num(41000000)}
        ps = [f'p{k}' for k in range(n)]
        c = ev.construct(cls(ev, 'rfCircuit'), [], dict(Zbase=ev.sym('Z1', pos='+'), Portnames=[ps[k] for k in order]))
        sh = Shadow()
        x = [pos(ev, 10 + k) for k in range(n)]
        # one block per port: each free port has a position of its own
        for k in range(n):
            meth(ev, c, 'addblock', f'B{k}', ev.arr(f'S{k}', (2, 2)), ports=['a', 'b'], relpos=x[k])
            meth(ev, c, 'connect', f'B{k}.a', ps[k])
        meth(ev, c, 'connect', *[f'B{k}.b' for k in range(n)])
        if what == 'evaluated twice':
            meth(ev, c, 'getS', freq(ev, 1))
        meth(ev, c, 'getS', freq(ev, 0))
        ports, xpos = list(ev.iterate(ev.getattr(c, 'ports'))), list(ev.iterate(ev.getattr(c, 'xpos')))
        sh.free = list(ps)
        out = [('order of the ports', ports, [ps[k] for k in order]), ('their positions', xpos, [x[k] for k in order])]
        out += invariant(ev, c, sh, 'after the evaluation')
        if what == 'then terminated':
            meth(ev, c, 'terminate', ps[1], Z=ev.sym('Zt', 'complex'))
            sh.free.remove(ps[1])
            out += invariant(ev, c, sh, 'after the termination')
            ports, xpos = list(ev.iterate(ev.getattr(c, 'ports'))), list(ev.iterate(ev.getattr(c, 'xpos')))
            out += [('order of the ports', ports, [ps[k] for k in order if k != 1]), ('their positions', xpos, [x[k] for k in order if k != 1])]
        return out
    law(ck, 'names', f'{n} ports announced as {order}, {what}', fclass(ck, 'rfCircuit', 'extS'), go, limit=20, steps=6000000)


def r_size(ck, sizes, op):
    def go(ev):
        ev.total = ev.F.loose_abs = True
        setup(ev)
        c = ev.construct(cls(ev, 'rfCircuit'), [], dict(Zbase=ev.sym('Z1', pos='+')))
        sh = Shadow()
        out = []
        for n in sizes:
            o_array(ev, c, sh, n)
            out += invariant(ev, c, sh, f'after {sh.k} blocks')
        if op == 'all to one':
            ps = list(sh.free)
            meth(ev, c, 'connect', *ps, 'node')
            sh.pos['node'] = set(ps)
            sh.free = ['node']
        elif op == 'pairs':
            while len(sh.free) > 1:
                join(0, -1)(ev, c, sh)
                out += invariant(ev, c, sh, f'with {len(sh.free)} ports left')
        elif op == 'terminate all':
            while sh.free:
                term(len(sh.free) // 2)(ev, c, sh)
                out += invariant(ev, c, sh, f'with {len(sh.free)} ports left')
        elif op == 'deembed all':
            ps = list(sh.free)
            meth(ev, c, 'deembed', {p: f'i{k}' for k, p in enumerate(ps)})
            sh.free = [f'i{k}' for k in range(len(ps))]
        return out + invariant(ev, c, sh, f'after {op}')
    law(ck, 'size', f'blocks of {sizes} ports, {op}', fclass(ck, 'rfCircuit', 'connect'), go, limit=20, steps=6000000)


def run(ck):
    for m in ('addblock', 'connect', 'terminate', 'deembed', 'extS'):
        ck.anchor(f'rfCircuit.{m}', fclass(ck, 'rfCircuit', m) is not None)
    depth = 3 if ck.tier == 'quick' else 4
    ck.pmap('history', r_history, [(s, f, g, depth) for s in START for f in OPS for g in (None, *OPS)])
    ck.pmap('names', r_names, [(o, n, w) for n in (2, 3) for o in itertools.permutations(range(n)) for w in ('evaluated', 'evaluated twice', 'then terminated')])
    ck.pmap('size', r_size, [(z, o) for z in ((1,), (2,), (4,), (1, 1), (2, 3), (3, 1, 2), (5, 2)) for o in ('all to one', 'pairs', 'terminate all', 'deembed all')])
