"""C04: library calls never modify the objects a caller passes in."""
import ast
from ..common import Interp, Client, V, EMPTY, path, root, locname, public, fmt

META = {
    'explanation': 'Alias and effect analysis: every public function and method is analysed with its parameters as '
                   'distinct abstract objects; every in-place operation (item/attribute assignment, augmented '
                   'assignment, mutating method, mutating numpy function) is resolved to the objects it may hit, '
                   'through assignments, containers, closures, views and package-internal calls.',
    'rules': {
        'argument': 'no in-place operation reaches an object that came in through a parameter (or through an '
                    'element of it)',
        'default': 'no in-place operation reaches a mutable default value, and no mutable default is stored where '
                   'a later call may change it',
    },
    'assumptions': ['RF objects, loggers, figures and axes handed in are meant to be operated on; dictionaries, '
                    'lists and arrays are not',
                    'library calls outside the package do not modify their arguments unless numpy documents it'],
}

SKIP_FUNCS = {'__init_subclass__'}
# documented in-place helpers
INPLACE = {('plotVSWs.scaleVSW', 'VSW'): 'scales the profile dictionary it is given, by contract'}
# parameters that are handles to operate on, not data
HANDLES = {'fig', 'ax', 'axs', 'axes', 'plt', 'logger', 'handler', 'formatter', 'f_out', 'stream', 'stdscr', 'hax', 'hf'}


class Effects(Client):
    """records every mutation of entry objects; keeps no typestate"""
    max_states = 6
    inline_depth = 7

    def __init__(self):
        self.hits = {}

    def no_inline(self, f):
        return f.name in ('strM', 'str_dict', 'printM', 'printMA', 'printRI', 'printDB')

    def hit(self, I, loc, what, node):
        self.hits.setdefault((loc, what), (I.where(node), tuple(
            f'{c[2].qual} called at line {c[1]}' for c in I.ctxt())))

    def attr_store(self, I, st, locs, name, old, val, node):
        for l in locs:
            if root(l)[0] in ('P', 'D'):
                self.hit(I, l, f'attribute {name} assigned', node)

    def mutate(self, I, st, locs, how, node, info):
        for l in locs:
            if root(l)[0] in ('P', 'D'):
                self.hit(I, l, how, node)


def entry_points(pkg):
    """public functions and methods (with the class they are run for)"""
    for m in pkg.live_modules():
        for f in m.funcs.values():
            if public(f.name):
                yield f, None
        for c in m.classes.values():
            seen = set()
            for n, f in c.methods.items():
                if (public(f.name) or (n.startswith('__') and n.endswith('__'))) and id(f) not in seen:
                    seen.add(id(f))
                    yield f, c


def run(ck):
    eps = list(entry_points(ck.pkg))
    ck.pmap('argument', one, eps)
    ck.anchor('public functions', len(eps) > 40)


def entry_name(f, c):
    return f'{f.mod.name}.{c.name + "." if c else ""}{f.name}'


def one(ck, f, c):
    cl = Effects()
    I = Interp(ck.pkg, cl)
    I.run(f, c)
    ck.saw(f)
    bad = False
    nm = entry_name(f, c)
    for (loc, what), (where, ctx) in sorted(cl.hits.items(), key=repr):
        r = root(loc)
        par = r[-1]
        if par in HANDLES or (nm, par) in INPLACE:
            continue
        bad = True
        rule = 'default' if r[0] == 'D' else 'argument'
        ck.bad(rule, f'{nm}:{par}', where, f'{locname(loc)} of {nm} is changed in place ({what})', ctx)
    if not bad:
        ck.ok('argument', nm, f.where)
