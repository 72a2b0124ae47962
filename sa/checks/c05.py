"""C05: what a caller receives is independent of the library's internal state."""
import ast
from ..common import Interp, Client, V, EMPTY, path, root, locname, public, fmt, reads_of_self
from ..interp import IMMUT
from ..terms import T
from .c04 import entry_points, entry_name

META = {
    'explanation': 'Alias (escape) analysis: at every exit of every public function the objects reachable from the '
                   'returned value are compared with the objects reachable from the receiver, from the default '
                   'values and from module level state, and the objects reachable from the receiver with the '
                   'containers that came in as arguments.',
    'rules': {
        'result': 'no list, dictionary or array reachable from the receiver, a default value or a module variable is '
                  'reachable from the returned value of an evaluation',
        'retain': 'no list, dictionary or array of the caller is reachable from the receiver (or from a default or '
                  'module variable) after the call',
    },
    'assumptions': ['an attribute or module variable is a container when the package uses it as one (indexes, '
                    'iterates, measures or grows it)',
                    'RF objects placed in a circuit are shared on purpose'],
}

CONT_METHODS = {'append', 'extend', 'pop', 'index', 'keys', 'items', 'values', 'update', 'insert', 'remove', 'sort',
                'tolist', 'reshape', 'copy', 'get', 'setdefault', 'shape'}
# lookups that hand out the RF object itself, by contract
HANDOUT = {'findObj', 'object', 'getobj'}
# recorded constructor arguments; exempt while nothing but the constructor and
# diagnostics reads them
RECORDED = {'args', 'kwargs', 'kwused', 'kwds'}


def container_attrs(cls):
    """attribute names used as containers anywhere in the class family"""
    out = {}
    for c in cls.mro():
        for f in c.methods.values():
            for n in ast.walk(f.node):
                def is_self(x):
                    return isinstance(x, ast.Attribute)
                if isinstance(n, ast.Subscript) and is_self(n.value):
                    out.setdefault(n.value.attr, n)
                elif isinstance(n, (ast.For, ast.comprehension)) and is_self(n.iter):
                    out.setdefault(n.iter.attr, n)
                elif isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Name) and n.func.id in ('len', 'enumerate', 'zip', 'list', 'sorted', 'dict'):
                        for a in n.args:
                            if is_self(a):
                                out.setdefault(a.attr, n)
                    if isinstance(n.func, ast.Attribute) and n.func.attr in CONT_METHODS and is_self(n.func.value):
                        out.setdefault(n.func.value.attr, n)
                elif isinstance(n, ast.Compare):
                    for op, c2 in zip(n.ops, n.comparators):
                        if isinstance(op, (ast.In, ast.NotIn)) and is_self(c2):
                            out.setdefault(c2.attr, n)
                elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.MatMult):
                    for x in (n.left, n.right):
                        if is_self(x):
                            out.setdefault(x.attr, n)
    return set(out)


def scalar_elems(cls):
    """container attributes whose elements are strings or numbers: they are
    only used as such"""
    return {'ports', 'Portnames', 'waves', 'eqns', 'xpos', 'fs', 'E', 'idxEs', 'kwused', 'flim', 'interpkws', 'vars',
            'glovars', 'locvars', 'forget', 'flags'}


# keyword arguments that are containers
DATA = {'ports', 'xpos', 'Portnames', 'odeparams', 'fs', 'Ss', 'S', 'params', 'flags', 'variables', 'interpkws',
        'relpos', 'E'}


# parameters whose elements are numbers or names
SCALAR_ELEMS = {'E', 'nodes', 'ports', 'fs', 'f', 'flags'}


def scalar_kwarg(q):
    """a single keyword argument that is not a container, or one whose name
    is not known"""
    p = path(q)
    if p[0][-1] not in ('kwargs', 'params'):
        return False
    if len(p) == 1:
        return p[0][-1] == 'kwargs'
    return p[1].strip("[]'\"") not in DATA or len(p) > 2


class Cl(Client):
    max_states = 6

    def no_inline(self, f):
        return f.name in ('strM', 'str_dict', 'printM', 'printMA', 'printRI', 'printDB', '__str__')


class Reach(dict):
    def __init__(self):
        self.val = {}


def objs(v, via='', depth=0):
    """the objects a value is or (for a tuple, list or dict display) holds,
    with the way to them"""
    out = []
    if v.k not in IMMUT:
        out += [(q, via, v if depth else None) for q in sorted(v.o, key=repr)]
    x = v.x
    if isinstance(x, tuple) and x and not v.o and depth < 6:
        if x[0] == 'seq':
            for i, e in enumerate(x[1]):
                out += objs(e, f'{via}[{i}]', depth + 1)
        elif x[0] == 'dictlit':
            for k, e in x[1].items():
                out += objs(e, f'{via}[{k!r}]', depth + 1)
    return out


def reach(st, v, follow=('N',)):
    """locations reachable from a value through the abstract heap"""
    idx = st.g.get('_idx')
    if idx is None:
        idx = {}
        for (l, f), w in st.heap.items():
            idx.setdefault(l, []).append((f, w))
        st.g['_idx'] = idx
    seen, todo = Reach(), objs(v)
    while todo:
        l, via, val = todo.pop()
        if l in seen:
            continue
        seen[l] = via
        seen.val[l] = val
        if root(l)[0] in follow:
            for f, w in idx.get(l, ()):
                todo += [(q, p, y or w) for q, p, y in objs(w, via + f)]
    return seen


def run(ck):
    eps = list(entry_points(ck.pkg))
    ck.pmap('result', one, eps)
    ck.anchor('public functions', len(eps) > 40)


def one(ck, f, c):
    cl = Cl()
    I = Interp(ck.pkg, cl)
    ex = I.run(f, c)
    ck.saw(f)
    nm = entry_name(f, c)
    cont = set().union(*(container_attrs(x) for x in ck.pkg.all_classes())) if c else set()
    flat = scalar_elems(c) if c else set()
    res, ret = {}, {}
    for e in ex:
        if e.kind not in ('return', 'yield'):
            continue
        # --- result
        own = {}
        if c is not None:
            for (l, fl), v in e.st.heap.items():
                if root(l) == ('self',) and v.k not in IMMUT:
                    a = path(l)[1] if len(path(l)) > 1 else fl
                    for q, via in reach(e.st, v).items():
                        if root(q)[0] == 'N' and not (a in flat and via):
                            own.setdefault(q, a)
        if f.name not in HANDOUT and f.name != '__init__' and e.v is not None:
            for l, via in reach(e.st, e.v).items():
                p = path(l)
                if l in own:
                    res[(own[l], 'state of the object')] = (e, f'self.{own[l]}', via)
                elif p[0] == ('self',):
                    if len(p) == 1:
                        continue
                    if p[1] not in cont or (len(p) > 2 and p[1] in flat):
                        continue
                    if 'object' in p[-1]:
                        continue
                    res[(p[1], 'state of the object')] = (e, locname(l), via)
                elif p[0][0] == 'D':
                    res[(p[0][-1], 'default value')] = (e, locname(l), via)
                elif p[0][0] == 'G':
                    res[(p[0][-1], 'module variable')] = (e, locname(l), via)
        # --- retained arguments
        if c is not None:
            roots = [(l, fl, v) for (l, fl), v in e.st.heap.items() if root(l) == ('self',)]
            for l, fl, v in roots:
                a = path(l)[1] if len(path(l)) > 1 else fl
                if a in RECORDED and not read_outside(c, a):
                    continue
                if v.k in IMMUT:
                    continue
                if l == ('self',) and a not in cont:
                    continue
                if len(path(l)) > 1 and a in flat:
                    continue
                lead = ''.join(path(l)[2:] + ((fl,) if len(path(l)) > 1 else ()))
                R = reach(e.st, v)
                for q, via in R.items():
                    r = root(q)
                    if r[0] not in ('P', 'D') or (r[-1] in SCALAR_ELEMS and len(path(q)) > 1):
                        continue
                    if scalar_kwarg(q) or (a in flat and (lead + via)):
                        continue
                    if a == 'blocks' and "['xpos']" in lead + via or "['ports'][" in lead + via:
                        continue
                    if a == 'blocks' and shared_object(e, q, R.val[q] or v):
                        continue
                    ret[(a, r[-1], 'argument' if r[0] == 'P' else 'default')] = (e, locname(q), via)
    for (a, what), (e, ln, via) in sorted(res.items(), key=repr):
        ck.bad('result', f'{nm}:{a}', f'{f.mod.rel}:{e.node.lineno}',
               f'the returned value of {nm} shares {ln} ({what}) with the library')
    for (a, par, what), (e, ln, via) in sorted(ret.items(), key=repr):
        ck.bad('retain', f'{nm}:{a}:{par}', f'{f.mod.rel}:{getattr(e.node, "lineno", f.node.lineno)}',
               f'after {nm} the object keeps {ln} of the caller in self.{a}{via}')
    if not res:
        ck.ok('result', nm, f.where)
    if c is not None and not ret:
        ck.ok('retain', nm, f.where)


def shared_object(e, q, v):
    """an RF object put in the circuit: kept only where it is known to offer
    getS (anything else is copied to an array)"""
    par = root(q)[-1]

    def guard(t):
        return t.op == 'hasattr' and 'getS' in repr(t.a[1]) and t.a[0].op == 'sym' and t.a[0].a[0] == par
    if any(b and guard(t) for t, b in e.st.facts.items()):
        return True
    t = v.t

    def own(x):
        """a term for a new object"""
        return x.op in ('call', 'copy', 'deepcopy') and not any(w in repr(x.a[0]) for w in ('asarray', 'asanyarray'))
    if t.op == 'ite':
        yes, no = (t.a[1], t.a[2]) if t.a[0].op != 'not' else (t.a[2], t.a[1])
        c = t.a[0].a[0] if t.a[0].op == 'not' else t.a[0]
        return guard(c) and yes.op == 'sym' and own(no)
    if t.op == 'phi':
        # joined paths: the parameter itself and a new array
        return all(own(x) or x.op == 'sym' for x in t.a[0] if isinstance(x, T)) and any(own(x) for x in t.a[0])
    return False


def read_outside(c, attr):
    for cc in c.mro():
        for f in cc.methods.values():
            if f.name in ('__init__', '__str__', '__repr__', 'asstr'):
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Load) and \
                        isinstance(n.value, ast.Name) and n.value.id == 'self':
                    return True
    return False
