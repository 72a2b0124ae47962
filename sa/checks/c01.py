"""C01: results kept by a circuit are reused only while they describe it."""
import ast
from ..common import (Interp, Client, V, EMPTY, path, locname, NONE, mk, const, walk, contains, fmt, circuit_classes,
                      methods_of, public, self_field, reads_of_self, pos_or_kw, OBJ_MUTATORS)

META = {
    'explanation': 'Typestate analysis of every public circuit method: the kept solution (S, invM, f) must not be '
                   'usable any more after anything it was computed from changed, on every normal and exceptional '
                   'path; the reuse condition of the evaluation must compare the structure, frequency, flags and '
                   'parameters exactly; node solutions must go through the evaluation at their own frequency and '
                   'flags.',
    'rules': {
        'invalidate': 'on every path of a public circuit method that changes the circuit matrix, waves, blocks, '
                      'terminations or anything else the evaluation reads, the kept S is discarded (or f is) before '
                      'the method is left, normally or by an exception',
        'reuse': 'the kept S is returned only under f == self.f, S is not None, flags == self.flags and no '
                 'parameters to apply',
        'remember': 'the frequency and flags remembered with a new S are the ones it was computed with, and flags '
                    'are remembered by value',
        'fill': 'an evaluation recomputes the entries of every block',
        'block-eval': 'a block is evaluated at the frequency, flags and parameters of this evaluation',
        'fresh': 'solve / Solution / maxV / internal S-matrix evaluate the circuit with their own frequency and '
                 'flags before they read the kept solution',
        'reuse-blocks': 'a block changed without the circuit knowing is seen by the reuse condition',
    },
    'assumptions': ['attributes of a circuit are changed through its methods, not assigned from outside',
                    'port positions (xpos), names of equations and Id do not enter an S-matrix'],
}

RESULT = {'S', 'invM', 'f', 'flags', 'idxEs', 'sol', 'tSol'}
IRRELEVANT = {'xpos', 'Id', 'eqns', 'kwargs', 'args', 'kwused', 'kwds'}
EVALS = {'getS', 'maxV', 'Solution', 'copy', 'listBlocks', 'getpos', 'asstr'}


class Cl(Client):
    max_states = 10

    def __init__(self, cls, struct, evaluator):
        self.cls, self.struct, self.evaluator = cls, struct, evaluator     # evaluator: this is the evaluation itself
        self.events = []

    def no_inline(self, f):
        return f.name in ('strM', 'ConvertGeneral', 'str_dict') or (f.name == '__str__')

    def key(self, I, st):
        g = st.g
        return tuple((k, repr(g.get(k))) for k in ('S', 'iv', 'f', 'ev', 'ext', 'lp'))

    def change(self, st, what, node, I):
        g = st.g
        if g['S'] in ('ini', 'new'):
            g['S'] = 'stale'
            g['why'] = f'{I.where(node)}: {what}'
        if g['iv'] in ('ini', 'new'):
            g['iv'] = 'stale'
            g['why'] = f'{I.where(node)}: {what}'

    def attr_store(self, I, st, locs, name, old, val, node):
        if ('self',) not in locs:
            for l in locs:
                if self_field(l) in self.struct:
                    self.change(st, f'{locname(l)}.{name} assigned', node, I)
            return
        isnone = val.t is NONE
        if name == 'S':
            st.g['S'] = 'none' if isnone else 'new'
            if not isnone:
                self.events.append(('S', st, val, node, I.where(node)))
        elif name == 'invM':
            st.g['iv'] = 'none' if isnone else 'new'
        elif name == 'f':
            st.g['f'] = 'none' if isnone or (val.t.op == 'attr' and val.t.a[-1] == 'nan') or 'nan' in repr(val.t)[-8:] \
                else 'new'
        elif name in self.struct:
            self.change(st, f'self.{name} assigned', node, I)

    def mutate(self, I, st, locs, how, node, info):
        for l in locs:
            f = self_field(l)
            if f == 'M' and st.g.get('lp'):
                st.g['lp'] = 'done'
            if f in self.struct:
                self.change(st, f'{locname(l)} changed ({how})', node, I)
                return
            if f == 'S' or f == 'invM':
                self.change(st, f'kept {f} changed in place ({how})', node, I)

    def on_loop(self, I, st, L, node):
        if self.evaluator and isinstance(node, (ast.For,)):
            src = ast.dump(node.iter)
            if "attr='blocks'" in src:
                if st.g.get('lp') == 'todo':
                    self.events.append(('skip', st, None, node, I.where(node)))
                st.g['lp'] = 'todo'

    def call(self, I, st, node, fv, args, kws):
        name = None
        if fv.k == 'bound':
            func, cls, recv = fv.x
            if recv is not None and ('self',) in recv.o and func.name == 'getS' and not self.evaluator:
                f = pos_or_kw(args, kws, 0, 'fs')
                fl = pos_or_kw(args, kws, 3, 'flags')
                st2 = st.copy()
                st2.g.update(S='none', iv='none')
                sink = I.rsink[-1]
                I.implicit_raise(st2, node, '?')
                for k in ('S', 'iv', 'f'):
                    st.g[k] = 'new'
                st.g['ev'] = (f.t if f else None, fl.t if fl else None)
                return V(I.callterm(fv.t, args, kws), EMPTY, 'ndarray')
            return None
        if fv.k == 'bmeth' or (isinstance(fv.x, tuple) and fv.x and fv.x[0] == 'maybe'):
            recv, name = (fv.x[0], fv.x[1]) if fv.k == 'bmeth' else (fv.x[1], fv.x[2])
            blk = any(self_field(l) == 'blocks' for l in recv.o)
            if name in OBJ_MUTATORS and blk and name not in ('append', '__setitem__', '__setattr__'):
                self.change(st, f'{name}() of a block', node, I)
                I.implicit_raise(st, node, '?')
                return V(I.callterm(fv.t, args, kws), EMPTY, None)
            if name == 'getS':
                if blk:
                    self.events.append(('block', st, (args, kws), node, I.where(node)))
                    I.implicit_raise(st, node, '?')
                else:
                    st.g['ext'] = 1
                    f, fl = pos_or_kw(args, kws, 0, 'fs'), pos_or_kw(args, kws, 3, 'flags')
                    st.g['ev'] = (f.t if f else None, fl.t if fl else None)
                return V(I.callterm(fv.t, args, kws), EMPTY, 'ndarray')
            if name in ('maxV', 'Solution'):
                return V(I.callterm(fv.t, args, kws), EMPTY, None)
        return None


def analyse(ck, cls, name, f, struct):
    c = Cl(cls, struct, name == 'getS' and f.cls.name == 'rfCircuit')
    I = Interp(ck.pkg, c)
    kinds = {'fs': 'num', 'f': 'num', 'name': 'str', 'port': 'str', 'IntPorts': None, 'ExtPorts': None}
    ex = I.run(f, cls, kinds=kinds, g={'S': 'ini', 'iv': 'ini', 'f': 'ini', 'ev': None, 'ext': 0, 'lp': None})
    return c, I, ex


def run(ck):
    pkg = ck.pkg
    base = pkg.cls('rfCircuit')
    if not ck.anchor('class rfCircuit', base):
        return
    done = set()
    for cls in circuit_classes(pkg):
        ck.anchor(f'{cls.name}.getS', cls.find('getS'))
        struct = reads_of_self(cls.find('getS'), cls) - RESULT - IRRELEVANT
        ck.notes.setdefault('structure_attributes', {})[cls.name] = sorted(struct)
        for name, f in sorted(methods_of(cls).items()):
            if not public(name) or name in ('extS', '__len__'):
                continue
            if cls is not base and (f.qual in done):
                continue
            done.add(f.qual)
            ck.rule('invalidate', one, cls, name, f, struct)
    ck.rule('reuse-blocks', reuse_blocks, base)


def one(ck, cls, name, f, struct):
    c, I, ex = analyse(ck, cls, name, f, struct)
    ck.saw(f)
    good = True
    for e in ex:
        g = e.st.g
        if g['f'] == 'none':
            continue
        for fld, nm in (('S', 'S'), ('iv', 'invM')):
            if g[fld] == 'stale' and (fld == 'S' or g['S'] in ('ini', 'new')):
                good = False
                how = 'returns' if e.kind != 'raise' else f'raises {e.exc}'
                ck.bad('invalidate', f'{cls.name}.{name}:{nm}', f'{f.mod.rel}:{getattr(e.node, "lineno", f.node.lineno)}',
                       f'the method {how} with the kept {nm} still marked valid although what it was computed '
                       f'from has changed', [g.get('why', ''), f'exit at line {getattr(e.node, "lineno", "?")}'])
    if good:
        ck.ok('invalidate', f'{cls.name}.{name}', f'{f.where}, {len(ex)} exits')
    if c.evaluator:
        evaluation(ck, cls, f, c, I, ex)
    elif name == 'getS':
        fresh(ck, cls, name, f, I, ex)
    if name in ('solve', 'Solution', 'maxV', 'Get_internalSmatrix'):
        fresh(ck, cls, name, f, I, ex)


def fresh(ck, cls, name, f, I, ex):
    pars = [a.arg for a in f.node.args.args]
    fn = 'f' if 'f' in pars else 'fs'
    ft = mk('sym', fn)
    fl = mk('sym', 'flags') if 'flags' in pars else None
    ok = True
    for e in ex:
        if e.kind != 'return' or fn not in pars:
            continue
        ev = e.st.g.get('ev')
        if ev is None:
            ok = False
            ck.bad('fresh', f'{cls.name}.{name}', f'{f.mod.rel}:{e.node.lineno}',
                   'returns a solution without evaluating the circuit first')
        elif ev[0] is None or not contains(ev[0], ft):
            ok = False
            ck.bad('fresh', f'{cls.name}.{name}:f', f'{f.mod.rel}:{e.node.lineno}',
                   'evaluates the circuit at another frequency than its own argument')
        elif fl is not None and (ev[1] is None or not contains(ev[1], fl)):
            ok = False
            ck.bad('fresh', f'{cls.name}.{name}:flags', f'{f.mod.rel}:{e.node.lineno}',
                   'evaluates the circuit without its own flags')
    if ok:
        ck.ok('fresh', f'{cls.name}.{name}', f.where)


WEAK = ('isclose', 'allclose', 'round', 'abs', 'int', 'str', 'array_equal')


def evaluation(ck, cls, f, c, I, ex):
    selfS = None
    fs, flags, params = mk('sym', 'fs'), mk('sym', 'flags'), mk('sym', 'params')
    me = mk('sym', 'self')
    aS, af, afl = mk('attr', me, 'S'), mk('attr', me, 'f'), mk('attr', me, 'flags')
    n = 0
    for e in ex:
        if e.kind != 'return' or e.st.g['S'] != 'ini' or e.st.g.get('ext'):
            continue
        if not any(x is aS for x in walk(e.v.t)):
            continue
        n += 1
        facts = e.st.facts
        where = f'{f.mod.rel}:{e.node.lineno}'
        have = {
            'f': is_eq(facts, fs, af),
            'flags': is_eq(facts, flags, afl),
            'S': facts.get(mk('is', aS, NONE)) is False or facts.get(mk('truthy', aS)) is True,
            'params': facts.get(mk('truthy', params)) is False or facts.get(params) is False,
        }
        txt = {'f': 'the frequency equals the one of the kept S', 'flags': 'the flags equal the ones of the kept S',
               'S': 'there is a kept S', 'params': 'there are no parameters to apply to the blocks'}
        sub = {'f': (fs, af), 'flags': (flags, afl), 'S': (aS,), 'params': (params,)}
        for k in have:
            cons = f'{cls.name}.getS:{k}'
            if have[k]:
                ck.ok('reuse', cons, where)
                continue
            men = [t for t in facts if all(any(x is y for x in walk(t)) for y in sub[k])]
            if not men or any(weak_cmp(t) for t in men):
                ck.bad('reuse', cons, where, f'the kept S-matrix is returned without establishing that {txt[k]}',
                       [fmt(t) for t in men])
            else:
                ck.open('reuse', cons, 'form of the condition not recognised: ' + fmt(men[0]))
    if not n:
        ck.open('reuse', f'{cls.name}.getS', 'no path returns a kept S-matrix')
    # what is remembered
    for e in ex:
        if e.kind != 'return' or e.st.g['S'] != 'new' or e.st.facts.get(mk('hasattr', fs, "'__iter__'")) is True:
            continue
        if any(t.op == 'hasattr' and b and t.a[0] is fs for t, b in e.st.facts.items()):
            continue
        where = f'{f.mod.rel}:{e.node.lineno}'
        for fld, par, exact in (('f', fs, True), ('flags', flags, False)):
            h = e.st.heap.get((('self',), fld))
            cons = f'{cls.name}.getS:remember {fld}'
            if h is None:
                ck.bad('remember', cons, where, f'a new S-matrix is kept without its {fld}')
                continue
            if not any(x is par for x in walk(h.t)):
                ck.bad('remember', cons, where, f'the {fld} kept with a new S-matrix is not the one it was '
                       f'computed for', [fmt(h.t)])
            elif fld == 'flags' and any(l[0] == 'P' or (l[0] == 'D') for l in h.o):
                ck.bad('remember', cons, where, 'the flags are remembered by reference: a later change of the '
                       'caller\'s dict makes an outdated S-matrix look current')
            else:
                ck.ok('remember', cons, where)
    # block evaluation
    seen = set()
    for kind, st, x, node, where in c.events:
        if kind == 'skip':
            ck.bad('fill', f'{cls.name}.getS', where, 'an iteration over the blocks ends without refreshing the '
                   'entries of the block in the circuit matrix')
        if kind == 'block':
            args, kws = x
            fa, fl = pos_or_kw(args, kws, 0, 'fs'), pos_or_kw(args, kws, 3, 'flags')
            pa = pos_or_kw(args, kws, 2, 'params')
            if fa is None or not any(y is fs for y in walk(fa.t)):
                ck.bad('block-eval', f'{cls.name}.getS:f', where, 'a block is not evaluated at the frequency asked')
            elif fl is None or not any(y is flags for y in walk(fl.t)):
                ck.bad('block-eval', f'{cls.name}.getS:flags', where, 'a block is not evaluated with the flags given')
            elif pa is None or not any(x is const('params') for x in walk(pa.t)):
                ck.bad('block-eval', f'{cls.name}.getS:params', where, 'a block is evaluated without the parameters '
                       'stored for it', [fmt(pa.t) if pa else 'no params argument'])
            elif where not in seen:
                seen.add(where)
                ck.ok('block-eval', f'{cls.name}.getS', where)
    if not any(k == 'skip' for k, *_ in c.events):
        ck.ok('fill', f'{cls.name}.getS', f.where)


def is_eq(facts, a, b):
    for x, y in ((a, b), (b, a)):
        if facts.get(mk('eq', x, y)) is True or facts.get(mk('is', x, y)) is True:
            return True
    return False


def weak_cmp(t):
    for x in walk(t):
        if x.op == 'cmp':
            return True
        if x.op == 'call' and any(w in repr(x.a[0]) for w in WEAK):
            return True
    return False


def reuse_blocks(ck, base):
    """does the reuse condition look at the blocks at all"""
    f = base.find('getS')
    for n in ast.walk(f.node):
        if isinstance(n, ast.If):
            d = ast.dump(n.test)
            if "attr='S'" in d and 'is' in d.lower():
                if "attr='blocks'" in d or 'signature' in d or 'changed' in d:
                    ck.ok('reuse-blocks', 'rfCircuit.getS', f.where)
                    return
                ck.bad('reuse-blocks', 'rfCircuit.getS', f'{f.mod.rel}:{n.lineno}',
                       'the kept S-matrix is reused although a block object may have been changed directly (not '
                       'through circuit.set) or through another circuit sharing it')
                return
    ck.open('reuse-blocks', 'rfCircuit.getS', 'reuse condition not found')
