"""helpers shared by the checks"""
import ast
from .interp import Interp, Client, V, F, EMPTY, path, root, locname, NONE, TRUE, FALSE
from .terms import mk, const, walk, contains, show
from .loader import Cls, Func

# methods of RF objects that change what the object evaluates to
OBJ_MUTATORS = {'set', 'addblock', 'connect', 'terminate', 'deembed', 'deembed2', 'setfs', 'addfS', 'sortports',
                'reversed', 'resolve_xpos', '__setitem__', '__setattr__', 'setattr', 'process_kwargs', 'append',
                'read_tsf', 'set_Zbase'}


def public(name):
    return not name.startswith('_') or name in ('__len__', '__call__', '__getitem__', '__setitem__', '__iter__')


def methods_of(cls, stop=('object',)):
    """every method a caller can reach on an object of this class: name -> Func"""
    out = {}
    for c in reversed(cls.mro()):
        for n, f in c.methods.items():
            out[n] = f
    return out


def circuit_classes(pkg):
    base = pkg.cls('rfCircuit')
    return [c for c in pkg.all_classes() if base is not None and base in c.mro()]


def self_field(loc):
    """('self', first field) for a location below the receiver"""
    p = path(loc)
    if p[0] == ('self',) and len(p) > 1:
        return p[1]
    return None


def reads_of_self(func, cls, skip=(), seen=None):
    """attributes of the receiver read by a method and by the methods of the
    receiver it calls"""
    seen = set() if seen is None else seen
    if func is None or func.qual in seen:
        return set()
    seen.add(func.qual)
    out = set()
    for n in ast.walk(func.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
            m = cls.find(n.attr)
            if m is not None:
                if n.attr not in skip:
                    out |= reads_of_self(m, cls, skip, seen)
            elif isinstance(n.ctx, ast.Load):
                out.add(n.attr)
    return out


def fmt(t, n=160):
    s = show(t)
    return s if len(s) <= n else s[:n] + '…'


def bound_args(func, args, kws, skip_self=True):
    """parameter name -> V of a call (without defaults)"""
    a = func.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if skip_self and names and func.cls is not None:
        names = names[1:]
    out = dict(zip(names, args))
    out.update({k: v for k, v in kws.items() if k != '**'})
    return out


def pos_or_kw(args, kws, i, name):
    if name in kws:
        return kws[name]
    return args[i] if len(args) > i else None
