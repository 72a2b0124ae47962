"""Flow sensitive abstract interpreter over the syntax tree of the package.

It is a dataflow analysis (nothing is executed): every statement transforms an
abstract state made of
  * value numbers (terms.T) of the local variables,
  * the set of abstract objects (allocation sites / access paths from the
    receiver, the parameters and globals) a value may alias,
  * an abstract heap of written fields,
  * branch facts (truth of condition terms) and a client defined typestate.
States are joined at loop heads, at function exits and whenever their number
grows ("property simulation": states that differ in typestate are kept apart).
Calls to functions of the package are analysed in the context of the call.
"""
import ast
import builtins
from .terms import (T, mk, const, NONE, TRUE, FALSE, neg, simp, walk, contains, is_const)
from .loader import Func, Cls, Module, is_main

EMPTY = frozenset()


class V:
    __slots__ = ('t', 'o', 'k', 'x')

    def __init__(self, t, o=EMPTY, k=None, x=None):
        self.t, self.o, self.k, self.x = t, o, k, x

    def __repr__(self):
        return f'V({self.t!r}|{set(self.o) or ""}|{self.k})'

    def key(self):
        return (self.t.id, self.o, self.k)


IMMUT = ('num', 'str', 'bool', 'none', 'func', 'ext', 'class', 'module', 'bound', 'bmeth')


def F(base, field, lim=7):
    d, b = 0, base
    while b[0] == 'F':
        d += 1
        b = b[1]
    if d >= lim:
        return base
    return ('F', base, field)


def root(loc):
    while loc[0] == 'F':
        loc = loc[1]
    return loc


def path(loc):
    p = []
    while loc[0] == 'F':
        p.append(loc[2])
        loc = loc[1]
    return (loc,) + tuple(reversed(p))


def locname(loc):
    p = path(loc)
    r = p[0]
    s = {'self': 'self', 'P': f'argument {r[-1]!r}', 'N': 'new', 'G': f'global {r[-1]}',
         'D': f'default of {r[-1]!r}'}.get(r[0], str(r))
    for f in p[1:]:
        s += f if f.startswith('[') else '.' + f
    return s


class St:
    __slots__ = ('env', 'heap', 'facts', 'ver', 'g')

    def __init__(self, env=None, heap=None, facts=None, ver=None, g=None):
        self.env, self.heap = env or {}, heap or {}
        self.facts, self.ver, self.g = facts or {}, ver or {}, g or {}

    def copy(self):
        return St(dict(self.env), dict(self.heap), dict(self.facts), dict(self.ver), dict(self.g))

    def full_key(self):
        return (frozenset((k, v.key()) for k, v in self.env.items()),
                frozenset((k, v.key()) for k, v in self.heap.items()),
                frozenset((t.id, b) for t, b in self.facts.items()),
                frozenset(self.ver.items()), frozenset(self.g.items()))


class Dead(Exception):
    """the current expression does not complete normally"""


class Budget(Exception):
    """analysis budget exhausted"""


class Frame:
    def __init__(self, fid, func, parent=None, cls=None):
        self.fid, self.func, self.parent, self.cls = fid, func, parent, cls
        self.returns = []
        self.globals = set()
        self.nonlocals = set()
        self.assigned = set()


class Exit:
    def __init__(self, kind, st, v, node, ctx, exc=None, implicit=False):
        self.kind, self.st, self.v, self.node, self.ctx = kind, st, v, node, ctx
        self.exc, self.implicit = exc, implicit

    def __repr__(self):
        return f'Exit({self.kind} line {getattr(self.node, "lineno", "?")} {self.exc or self.v})'


class Client:
    """callbacks of a property; defaults do nothing"""
    max_states = 8
    debug_off = True       # diagnostics are disabled (C14 analyses them)
    inline_depth = 7
    track_try = True

    def call(self, I, st, node, fv, args, kws):
        return None

    def attr_store(self, I, st, locs, name, old, val, node):
        pass

    def mutate(self, I, st, locs, how, node, info):
        pass

    def implicit(self, I, st, node, kind, info):
        """may this operation raise? -> exception name or None"""
        return None

    def key(self, I, st):
        return tuple(sorted((k, v) for k, v in st.g.items()))

    def exit_key(self, I, st):
        return self.key(I, st)

    def join_ghost(self, a, b):
        return dict(a)

    def on_loop(self, I, st, L, node):
        pass

    def no_inline(self, func):
        return False

    def compare(self, I, st, node, op, l, r, t):
        pass

    def use(self, I, st, node, v):
        pass


MUTATORS = {'append', 'extend', 'insert', 'remove', 'clear', 'update', 'pop', 'popitem', 'setdefault',
            'sort', 'reverse', 'add', 'discard', 'fill', 'resize', 'put', 'itemset', '__setitem__',
            '__delitem__', 'difference_update', 'intersection_update', 'partition', 'setflags',
            '__iadd__', 'setfield', 'symmetric_difference_update', 'appendleft', 'popleft', 'byteswap'}
ALIAS_NP = {'asarray', 'asanyarray', 'ravel', 'reshape', 'transpose', 'squeeze', 'atleast_1d', 'atleast_2d',
            'atleast_3d', 'real', 'imag', 'swapaxes', 'moveaxis', 'expand_dims', 'broadcast_to', 'diagonal',
            'asmatrix', 'ascontiguousarray', 'rollaxis', 'flip', 'fliplr', 'flipud', 'rot90', 'array_split',
            'split', 'require', 'asfortranarray'}
TO_ARRAY = {'asarray', 'asanyarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'ascontiguousarray', 'reshape',
            'asfortranarray', 'require'}
ALIAS_METH = {'reshape', 'ravel', 'view', 'transpose', 'squeeze', 'swapaxes', 'diagonal', '__iter__', '__array__'}
ALIAS_ATTR = {'T', 'real', 'imag', 'flat', 'base', 'H', 'A'}
ARITH = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
         ast.MatMult: '@', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
NOOP_FUNCS = {'logident', 'ident', 'whoami', 'strval', 'add_debug_code'}
LOGGER_METHS = {'debug', 'info', 'warning', 'error', 'critical', 'log'}


def exc_matches(exc, handler_names):
    """may exception `exc` (a class name or '?') be caught by a handler"""
    if handler_names is None or exc == '?':
        return True
    ec = getattr(builtins, exc, None)
    for h in handler_names:
        hc = getattr(builtins, h.split('.')[-1], None)
        if h.split('.')[-1] == exc:
            return True
        if isinstance(ec, type) and isinstance(hc, type) and issubclass(ec, hc):
            return True
        if ec is None and hc is not None and hc in (Exception, BaseException):
            return True
    return False


class Interp:
    def __init__(self, pkg, client, budget=400000):
        self.arrayish = set()
        self.pkg, self.client = pkg, client
        self.frames, self.ctx = [], []
        self.rsink = [[]]
        self.trysink = []
        self.fid = 0
        self.loops = []
        self.steps, self.budget = 0, budget
        self.kinds = {}
        self.cursor = None
        self.handling = []
        self.defer = []

    # ------------------------------------------------------------ entry point
    def run(self, func, cls=None, selfloc=('self',), preset=None, g=None, kinds=None, st=None):
        """analyse `func` as an entry point; returns the list of exits"""
        st = st or St()
        if g is not None:
            st.g = dict(g)
        fr = self.push(func, None, cls)
        self.bind_entry(fr, st, func, cls, selfloc, preset or {}, kinds or {})
        outs = self.exec_block(func.node.body if not isinstance(func.node, ast.Lambda)
                               else [ast.Return(value=func.node.body, lineno=func.node.lineno,
                                                col_offset=0)], [st])
        exits = list(fr.returns)
        for s in outs:
            exits.append(Exit('return', s, V(NONE, k='none'), func.node, ()))
        exits += self.rsink[-1]
        self.frames.pop()
        return exits

    def push(self, func, parent, cls, fid=None):
        if fid is None:
            self.fid += 1
            fid = self.fid
        fr = Frame(fid, func, parent, cls)
        node = func.node
        if not isinstance(node, ast.Lambda):
            fr.assigned = assigned_names(node)
            for n in walk_own(node):
                if isinstance(n, ast.Global):
                    fr.globals.update(n.names)
                elif isinstance(n, ast.Nonlocal):
                    fr.nonlocals.update(n.names)
        a = node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
            fr.assigned.add(p.arg)
        fr.assigned -= fr.globals | fr.nonlocals
        self.frames.append(fr)
        return fr

    def bind_entry(self, fr, st, func, cls, selfloc, preset, kinds):
        a = func.node.args
        pos = a.posonlyargs + a.args
        self.arrayish = containers_in(func)
        decl_static = any(isinstance(d, ast.Name) and d.id == 'staticmethod'
                          for d in getattr(func.node, 'decorator_list', []))
        for i, p in enumerate(pos + a.kwonlyargs):
            if i == 0 and func.cls is not None and not decl_static and func.parent is None:
                st.env[(fr.fid, p.arg)] = V(mk('sym', 'self'), frozenset([selfloc]), 'obj:' + (cls or func.cls).name)
                continue
            if p.arg in preset:
                st.env[(fr.fid, p.arg)] = preset[p.arg]
                continue
            o = {('P', p.arg)}
            d = default_of(a, p)
            if d is not None and is_mutable_expr(d):
                o.add(('D', func.qual, p.arg))
            k = kinds.get(p.arg)
            st.env[(fr.fid, p.arg)] = V(mk('sym', p.arg), frozenset(o) if k not in IMMUT else EMPTY, k)
        if a.vararg:
            loc = ('N', 'varargs:' + func.qual)
            st.env[(fr.fid, a.vararg.arg)] = V(mk('sym', '*' + a.vararg.arg), frozenset([loc]), 'tuple')
            st.heap[(loc, '[*]')] = V(mk('sym', '*' + a.vararg.arg + '[]'), frozenset([('P', a.vararg.arg)]))
        if a.kwarg:
            loc = ('N', 'kwargs:' + func.qual)
            st.env[(fr.fid, a.kwarg.arg)] = V(mk('sym', '**' + a.kwarg.arg), frozenset([loc]), 'dict')
            st.heap[(loc, '[*]')] = V(mk('sym', '**' + a.kwarg.arg + '[]'), frozenset([('P', a.kwarg.arg)]))

    # --------------------------------------------------------------- helpers
    @property
    def fr(self):
        return self.frames[-1]

    @property
    def mod(self):
        return self.fr.func.mod

    def where(self, node):
        return f'{self.mod.rel}:{getattr(node, "lineno", "?")}'

    def ctxt(self):
        return tuple(self.ctx)

    def site(self, node, tag=''):
        return (self.mod.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), tag,
                tuple(c[1] for c in self.ctx[-3:]))

    def new(self, st, node, t, k, tag=''):
        loc = ('N', self.site(node, tag))
        for key in [q for q in st.heap if q[0] == loc]:
            # a re-executed allocation: fields keep the join of all its objects
            st.heap[key] = st.heap[key]
        return V(t, frozenset([loc]), k)

    def attr_kind(self, cname, attr):
        key = (cname, attr)
        if key in self.kinds:
            return self.kinds[key]
        c = self.pkg.cls(cname)
        ks = set()
        if c is not None:
            for cc in c.mro():
                for f in cc.methods.values():
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Assign):
                            for t in n.targets:
                                tt, vv = [(t, n.value)], None
                                if isinstance(t, ast.Tuple):
                                    vs = n.value.elts if isinstance(n.value, ast.Tuple) and \
                                        len(n.value.elts) == len(t.elts) else [None] * len(t.elts)
                                    tt = list(zip(t.elts, vs))
                                for a, v in tt:
                                    if isinstance(a, ast.Attribute) and a.attr == attr and \
                                            isinstance(a.value, ast.Name) and a.value.id == 'self':
                                        ks.add(guess_kind(v, f) if v is not None else None)
        ks.discard('none')
        r = None
        if len(ks) == 1:
            r = ks.pop()
        elif ks and None not in ks and ks <= {'num', 'bool'}:
            r = 'num'
        self.kinds[key] = r
        return r

    # --------------------------------------------------- truth / assumptions
    def truth(self, st, t):
        if t.op == 'const':
            return bool(t.a[0])
        if t in st.facts:
            return st.facts[t]
        if self.client.debug_off and is_debug_flag(t):
            return False
        if t.op == 'not':
            r = self.truth(st, t.a[0])
            return None if r is None else not r
        if t.op in ('and', 'or'):
            rs = [self.truth(st, x) for x in t.a]
            if t.op == 'and':
                return False if False in rs else (True if all(r is True for r in rs) else None)
            return True if True in rs else (False if all(r is False for r in rs) else None)
        if t.op == 'bin' and t.a[0] == '|':
            rs = [self.truth(st, x) for x in t.a[1:]]
            return True if True in rs else (False if all(r is False for r in rs) else None)
        if t.op == 'truthy':
            r = self.truth(st, t.a[0])
            if r is not None:
                return r
            x = t.a[0]
            if x.op in ('list', 'tuple', 'dict', 'set') and x.a and isinstance(x.a[0], tuple):
                return len(x.a[0]) > 0
            # a value that is None is false
            if st.facts.get(mk('is', x, NONE)) is True:
                return False
        if t.op == 'is' and t.a[1] is NONE:
            x = t.a[0]
            if x.op in ('list', 'tuple', 'dict', 'set', 'call', 'bin', 'fstr', 'comp', 'lambda') or (
                    x.op == 'const' and x.a[0] is not None):
                return False if x.op != 'call' else None
            if st.facts.get(mk('truthy', x)) is True:
                return False
        if t.op == 'eq':
            l, r = t.a
            if l is r:
                return True
            if is_const(l) and is_const(r):
                return l.a[0] == r.a[0]
            if r is NONE:
                q = self.truth(st, mk('is', l, NONE))
                if q is not None:
                    return q
        if t.op == 'ite':
            c = self.truth(st, t.a[0])
            if c is not None:
                return self.truth(st, t.a[1] if c else t.a[2])
        if t.op == 'isinstance':
            x, ty = t.a
            for f, b in st.facts.items():
                if b and f.op == 'isinstance' and f.a[0] is x and f.a[1] is not ty:
                    n1, n2 = f.a[1], ty
                    base = {'dict', 'list', 'tuple', 'str', 'int', 'float', 'complex'}
                    s1, s2 = tyset(n1), tyset(n2)
                    if s1 and s2 and s1 <= base and s2 <= base and not (s1 & s2):
                        return False
        return None

    def assume(self, st, t, val):
        """add the fact t==val; False when contradictory"""
        r = self.truth(st, t)
        if r is not None:
            return r == val
        if t.op == 'not':
            return self.assume(st, t.a[0], not val)
        if (t.op == 'and' and val) or (t.op == 'or' and not val):
            return all(self.assume(st, x, val) for x in t.a)
        if t.op == 'bin' and t.a[0] == '|' and not val:
            return all(self.assume(st, simp('truthy', x), False) for x in t.a[1:])
        if t.op in ('and', 'or'):
            un = [x for x in t.a if self.truth(st, x) is None]
            if len(un) == 1:
                return self.assume(st, un[0], val)
        if t.op == 'ite' and is_const(t.a[1]) and is_const(t.a[2]):
            b1, b2 = bool(t.a[1].a[0]), bool(t.a[2].a[0])
            if b1 != b2:
                return self.assume(st, t.a[0], val == b1)
        st.facts[t] = val
        if t.op == 'truthy' and val:
            st.facts[mk('is', t.a[0], NONE)] = False
        return True

    # ------------------------------------------------------------- state sets
    def boolkey(self, st):
        r = []
        for k, v in st.env.items():
            if v.t.op == 'const' and (v.t.a[0] is None or isinstance(v.t.a[0], bool)):
                r.append((k, v.t.a[0]))
            elif v.k == 'bool' or v.t.op in ('eq', 'not', 'is', 'in', 'cmp'):
                q = self.truth(st, v.t)
                if q is not None:
                    r.append((k, q))
        return tuple(sorted(r, key=repr))

    def skey(self, st):
        return (self.client.key(self, st), self.boolkey(st))

    def merge(self, states, force=False):
        if len(states) < 2:
            return states
        out, seen = [], set()
        for s in states:
            k = s.full_key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if force or len(out) > self.client.max_states:
            d = {}
            for s in out:
                k = self.skey(s)
                d[k] = self.join(d[k], s) if k in d else s
            out = list(d.values())
        if len(out) > 4 * self.client.max_states:
            d = {}
            for s in out:
                k = self.client.key(self, s)
                d[k] = self.join(d[k], s) if k in d else s
            out = list(d.values())
        return out

    def joinv(self, a, b, tag):
        if a.key() == b.key():
            return a
        k = a.k if a.k == b.k else (a.k if b.k == 'none' else b.k if a.k == 'none' else None)
        x = a.x if a.x is b.x else None
        if a.t is b.t:
            t = a.t
        else:
            alts = set()
            for q in (a.t, b.t):
                alts |= set(q.a[0]) if q.op == 'phi' else {q}
            t = mk('phi', tuple(sorted(alts, key=lambda z: z.id))) if len(alts) <= 8 else mk('sym', f'phi:{tag}')
        return V(t, a.o | b.o, k, x)

    def join(self, a, b):
        s = a.copy()
        for k in set(a.env) | set(b.env):
            va, vb = a.env.get(k), b.env.get(k)
            if va is None or vb is None:
                v = va or vb
                s.env[k] = v
            else:
                s.env[k] = self.joinv(va, vb, k)
        for k in set(a.heap) | set(b.heap):
            va, vb = a.heap.get(k), b.heap.get(k)
            if va is None:
                va = self.initial(a, k[0], k[1])
            if vb is None:
                vb = self.initial(b, k[0], k[1])
            s.heap[k] = self.joinv(va, vb, k) if va and vb else (va or vb)
        s.facts = {t: v for t, v in a.facts.items() if b.facts.get(t) == v}
        s.ver = dict(a.ver)
        for k, v in b.ver.items():
            if s.ver.get(k) != v:
                s.ver[k] = ('j', min(repr(s.ver.get(k)), repr(v)), max(repr(s.ver.get(k)), repr(v))) \
                    if len(repr(v)) + len(repr(s.ver.get(k))) < 200 else ('j',)
        s.g = self.client.join_ghost(a.g, b.g)
        return s

    def initial(self, st, loc, field):
        if loc[0] == 'dattr':
            return V(mk('dattr', loc[1], loc[2]), frozenset(F(l, '*attr*') for l in loc[3]))
        if root(loc)[0] == 'N':
            return None
        return V(mk('ini', repr(loc), field), frozenset([F(loc, field)]))

    # ----------------------------------------------------------- heap access
    def content_ver(self, st, o):
        vs = tuple(sorted(repr(st.ver[l]) + repr(l) for l in o if l in st.ver))
        return vs

    def bump(self, st, locs, node):
        for l in locs:
            st.ver[l] = (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))

    def read_field(self, st, v, field, mkterm, kind=None):
        """read field of every object v may be"""
        res = None
        for loc in sorted(v.o, key=repr):
            h = st.heap.get((loc, field))
            if h is None and field.startswith('[') and field != '[*]':
                h = st.heap.get((loc, '[*]'))
                if h is not None and loc[0] == 'N' and isinstance(loc[1], str) and loc[1].startswith('kwargs:') \
                        and len(h.o) == 1 and next(iter(h.o))[0] == 'P':
                    # one keyword argument of the caller
                    h = V(h.t, frozenset([F(next(iter(h.o)), field)]), h.k)
                if h is not None and root(loc)[0] != 'N':
                    # initial contents remain possible beside weak updates
                    h = self.joinv(h, V(mkterm(), frozenset([F(loc, field)]), kind), field)
            if h is None:
                if root(loc)[0] == 'N':
                    h = V(mkterm(), EMPTY, kind)
                else:
                    o = EMPTY if kind in IMMUT else frozenset([F(loc, field)])
                    h = V(mkterm(), o, kind)
            res = h if res is None else self.joinv(res, h, field)
        if res is None:
            res = V(mkterm(), EMPTY, kind)
        return res

    def elem_of(self, st, v, t):
        """value of an unspecified element of container v"""
        if v.x is not None and isinstance(v.x, tuple) and v.x and v.x[0] == 'seq' and v.x[1]:
            r = None
            for e in v.x[1]:
                r = e if r is None else self.joinv(r, e, 'el')
            return V(t, r.o, r.k, r.x if len(v.x[1]) == 1 else None)
        if v.k == 'ndarray':
            return V(t, v.o, None)
        if v.k in ('str', 'num', 'bool'):
            return V(t, EMPTY, v.k if v.k == 'str' else None)
        r = self.read_field(st, v, '[*]', lambda: t)
        return V(t, r.o, r.k, r.x)

    def store_elem(self, st, v, field, val, node):
        for loc in v.o:
            key = (loc, field)
            if loc[0] == 'N' and len(v.o) == 1 and field != '[*]':
                st.heap[key] = val
            else:
                old = st.heap.get(key)
                st.heap[key] = self.joinv(old, val, field) if old is not None else val
            if field != '[*]':
                old = st.heap.get((loc, '[*]'))
                st.heap[(loc, '[*]')] = self.joinv(old, val, '[*]') if old is not None else val

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, states):
        for s in stmts:
            if not states:
                return []
            nxt = []
            for st in states:
                self.steps += 1
                if self.steps > self.budget:
                    raise Budget()
                if self.trysink and self.trysink[-1][0] is self.fr:
                    ex = stmt_raises(s)
                    if ex:
                        self.trysink[-1][1].append((st.copy(), ex))
                try:
                    nxt += self.exec_stmt(s, st)
                except Dead:
                    pass
            states = self.merge(nxt)
        return states

    def exec_stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return [st]
        return m(s, st)

    def s_Pass(self, s, st):
        return [st]

    def s_Expr(self, s, st):
        return [q for q, _ in self.evf(s.value, st)]

    def s_Assign(self, s, st):
        out = []
        for q, v in self.evf(s.value, st):
            try:
                for t in s.targets:
                    self.assign(q, t, v, s)
                out.append(q)
            except Dead:
                pass
        return out

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [st]
        out = []
        for q, v in self.evf(s.value, st):
            self.assign(q, s.target, v, s)
            out.append(q)
        return out

    def s_AugAssign(self, s, st):
        out = []
        for q, r in self.evf(s.value, st):
            load = to_load(s.target)
            l = self.ev(load, q)
            op = ARITH.get(type(s.op), '?')
            inplace = l.k in ('list', 'ndarray', 'set', 'dict') or (
                l.k is None and (op == '+' and r.k == 'list' or
                                 any(o[0] == 'P' and o[1] in self.arrayish for o in l.o)))
            if inplace and l.o:
                self.mutated(q, l.o, 'aug' + op, s, (r,), l)
                if l.k != 'ndarray':
                    self.store_elem(q, l, '[*]', self.elem_of(q, r, mk('elem', r.t, 'aug')), s)
                nv = V(simp('bin', op, l.t, r.t), l.o, l.k)
                self.assign(q, s.target, nv, s, aug=True)
            else:
                nv = V(simp('bin', op, l.t, r.t), EMPTY, 'bool' if l.k == 'bool' else l.k if l.k == r.k else (
                    l.k or (r.k if r.k in ('str', 'ndarray') else None)))
                if nv.k == 'ndarray' or nv.k is None:
                    pass
                self.assign(q, s.target, nv, s, aug=True)
            out.append(q)
        return out

    def s_Return(self, s, st):
        if s.value is None:
            self.fr.returns.append(Exit('return', st, V(NONE, k='none'), s, self.ctxt()))
            return []
        for q, v in self.evf(s.value, st):
            self.fr.returns.append(Exit('return', q, v, s, self.ctxt()))
        return []

    def s_If(self, s, st):
        out = []
        for q, c in self.cond(s.test, st):
            a, b = q, q.copy()
            if self.assume(a, c, True):
                out += self.exec_block(s.body, [a])
            if self.assume(b, c, False):
                out += self.exec_block(s.orelse, [b])
        return out

    def cond(self, test, st):
        """evaluate a branch condition: [(state, condition term)]"""
        r = []
        for q, v in self.evf(test, st):
            r.append((q, simp('truthy', v.t)))
        return r

    def s_Raise(self, s, st):
        exc = '?'
        if s.exc is not None:
            e = s.exc
            v = self.ev(e, st) if True else None
            f = e.func if isinstance(e, ast.Call) else e
            exc = dotted(f) or '?'
            exc = exc.split('.')[-1]
            if isinstance(e, ast.Name) and getattr(builtins, e.id, None) is None:
                exc = '?'
        elif self.handling:
            exc = self.handling[-1]
        self.add_raise(Exit('raise', st, None, s, self.ctxt(), exc))
        return []

    def add_raise(self, e, sink=None):
        """record an exceptional exit; exits of one program point that agree
        on the client's typestate are joined"""
        sink = self.rsink[-1] if sink is None else sink
        k = (id(e.node), e.ctx, e.exc, self.client.exit_key(self, e.st))
        for i, q in enumerate(sink):
            if id(q.node) == k[0] and q.ctx == e.ctx and q.exc == e.exc and \
                    self.client.exit_key(self, q.st) == k[3]:
                sink[i] = Exit(q.kind, self.join(q.st, e.st), q.v, q.node, q.ctx, q.exc,
                               q.implicit and e.implicit)
                return
        sink.append(e)

    def s_Assert(self, s, st):
        out = []
        for q, c in self.cond(s.test, st):
            b = q.copy()
            if self.assume(b, c, False):
                self.add_raise(Exit('raise', b, None, s, self.ctxt(), 'AssertionError'))
            if self.assume(q, c, True):
                out.append(q)
        return out

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                v = self.ev(t.value, st)
                i = self.ev_index(t.slice, st)
                self.mutated(st, v.o, 'delitem', s, (i,), v)
            elif isinstance(t, ast.Attribute):
                v = self.ev(t.value, st)
                self.store_attr(st, v, t.attr, V(mk('deleted'), k='none'), s)
            elif isinstance(t, ast.Name):
                st.env.pop((self.fr.fid, t.id), None)
        return [st]

    def s_FunctionDef(self, s, st):
        f = Func(s, self.mod, None, self.fr.func)
        st.env[(self.fr.fid, s.name)] = V(mk('closure', f.qual, s.lineno), EMPTY, 'func', (f, self.fr))
        return [st]
    s_AsyncFunctionDef = s_FunctionDef

    def s_Import(self, s, st):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            self.setlocal(st, nm, V(mk('ext', a.name), EMPTY, 'ext', a.name))
        return [st]

    def s_ImportFrom(self, s, st):
        for a in s.names:
            nm = a.asname or a.name
            r = None
            if s.level or (s.module or '').startswith('pyRFtk'):
                mm = Module.__new__(Module)
                b = (s.module or '')
                b = b[len('pyRFtk'):].lstrip('.') if b.startswith('pyRFtk') else b
                tm = self.pkg.modules.get(b) if b else self.pkg.modules.get('__init__')
                r = self.pkg.resolve(tm, a.name) if tm else None
            self.setlocal(st, nm, self.from_res(r) if r else
                          V(mk('ext', f'{s.module}.{a.name}'), EMPTY, 'ext', f'{s.module}.{a.name}'))
        return [st]

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(st, it.optional_vars, V(mk('with', v.t), v.o, None), s)
        return self.exec_block(s.body, [st])
    s_AsyncWith = s_With

    def s_Match(self, s, st):
        self.ev(s.subject, st)
        out = []
        for c in s.cases:
            q = st.copy()
            for n in ast.walk(c.pattern):
                nm = getattr(n, 'name', None)
                if isinstance(nm, str):
                    self.setlocal(q, nm, V(mk('sym', f'match:{nm}')))
            out += self.exec_block(c.body, [q])
        out.append(st)
        return out

    def s_Break(self, s, st):
        if self.loops:
            self.loops[-1][0].append(st)
        return []

    def s_Continue(self, s, st):
        if self.loops:
            self.loops[-1][1].append(st)
        return []

    # ---- loops
    def s_For(self, s, st):
        out = []
        it = self.ev(s.iter, st)
        elts = self.literal_elts(st, it)
        if elts is not None and len(elts) <= 12:
            states, brk = [st], []
            for e in elts:
                nxt = []
                for q in states:
                    self.assign(q, s.target, e, s)
                    self.loops.append(([], []))
                    r = self.exec_block(s.body, [q])
                    b, c = self.loops.pop()
                    brk += b
                    nxt += r + c
                states = self.merge(nxt)
            if s.orelse:
                states = self.exec_block(s.orelse, states)
            return self.merge(states + brk)

        L = self.site(s)[:3]

        def bind(q):
            self.client.on_loop(self, q, L, s)
            self.assign(q, s.target, self.loop_elem(q, it, L, s.iter), s)
            return [q]
        states, brk = self.loop(s, [st], L, bind, lambda q: [q], it)
        if s.orelse:
            states = self.exec_block(s.orelse, states)
        return self.merge(states + brk)
    s_AsyncFor = s_For

    def s_While(self, s, st):
        L = self.site(s)[:3]

        def bind(q):
            out = []
            for r, c in self.cond(s.test, q):
                if self.assume(r, c, True):
                    out.append(r)
            return out

        def leave(q):
            out = []
            for r, c in self.cond(s.test, q.copy()):
                if self.assume(r, c, False):
                    out.append(r)
            return out
        states, brk = self.loop(s, [st], L, bind, leave, None)
        if s.orelse:
            states = self.exec_block(s.orelse, states)
        return self.merge(states + brk)

    def loop(self, s, entry, L, bind, leave, itv):
        names = set()
        for n in s.body:
            names |= assigned_names_stmt(n)
        if isinstance(s, ast.For):
            names |= {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}

        def havoc(q):
            for nm in names:
                key = self.varkey(nm)
                v = q.env.get(key)
                if v is not None and not (v.t.op == 'const' and (v.t.a[0] is None or isinstance(v.t.a[0], bool))) \
                        and v.k not in ('func', 'ext', 'class'):
                    if v.t.op == 'lv' and v.t.a[0] == repr(L):
                        continue
                    q.env[key] = V(mk('lv', repr(L), nm), v.o, v.k)
            return q
        header, order = {}, []
        brk = {}
        pending = [havoc(q) for q in self.merge(entry, True)]
        rounds = 0
        while pending and rounds < 7:
            rounds += 1
            todo = []
            for q in pending:
                k = self.skey(q)
                if k in header:
                    j = self.widen(header[k], q, L)
                    if j.full_key() == header[k].full_key():
                        continue
                    header[k] = j
                else:
                    if len(header) > 16:
                        k = next(iter(header))
                        header[k] = self.widen(header[k], q, L)
                    else:
                        header[k] = q.copy()
                        order.append(k)
                if k not in todo:
                    todo.append(k)
            pending = []
            for k in todo:
                starts = bind(header[k].copy())
                self.loops.append(([], []))
                outs = self.exec_block(s.body, starts)
                b, c = self.loops.pop()
                brk[k] = b
                for q in outs + c:
                    pending.append(self.backedge(q, L))
            pending = self.merge(pending, True)
        res = []
        for k in order:
            res += leave(header[k].copy())
        return self.merge(res), [q for v in brk.values() for q in v]

    def backedge(self, q, L):
        rl = repr(L)

        def local(t):
            return any(x.op in ('elem', 'key', 'val', 'idx', 'lv') and rl in x.a for x in walk(t))
        for key, v in list(q.env.items()):
            if v.k == 'bool' or v.t.op in ('eq', 'not', 'is', 'in', 'cmp', 'and', 'or', 'truthy') or (
                    v.t.op == 'bin' and v.t.a[0] == '|'):
                r = self.truth(q, v.t)
                if r is not None:
                    q.env[key] = V(TRUE if r else FALSE, EMPTY, 'bool')
        q.facts = {t: b for t, b in q.facts.items() if not local(t)}
        return q

    def widen(self, a, b, L):
        s = a.copy()
        for k in set(a.env) | set(b.env):
            va, vb = a.env.get(k), b.env.get(k)
            if va is None or vb is None:
                s.env[k] = va or vb
                continue
            if va.key() == vb.key():
                continue
            k2 = va.k if va.k == vb.k else (va.k if vb.k == 'none' else vb.k if va.k == 'none' else None)
            s.env[k] = V(va.t if va.t is vb.t else mk('lv', repr(L), str(k[1])), va.o | vb.o, k2,
                         va.x if va.x is vb.x else None)
        for k in set(a.heap) | set(b.heap):
            va, vb = a.heap.get(k), b.heap.get(k)
            if va is None:
                va = self.initial(a, *k)
            if vb is None:
                vb = self.initial(b, *k)
            if va is None or vb is None:
                s.heap[k] = va or vb
            elif va.key() != vb.key():
                k2 = va.k if va.k == vb.k else None
                s.heap[k] = V(va.t if va.t is vb.t else mk('lv', repr(L), repr(k)), va.o | vb.o, k2,
                              va.x if va.x is vb.x else None)
        s.facts = {t: v for t, v in a.facts.items() if b.facts.get(t) == v}
        s.ver = dict(a.ver)
        for k, v in b.ver.items():
            if s.ver.get(k) != v:
                s.ver[k] = ('w', repr(L))
        s.g = self.client.join_ghost(a.g, b.g)
        return s

    def literal_elts(self, st, v):
        if v.x is not None and isinstance(v.x, tuple) and v.x and v.x[0] == 'seq':
            if v.o and any(l in st.ver for l in v.o):
                return None
            return list(v.x[1])
        return None

    def loop_elem(self, st, it, L, node):
        """abstract element of iterating value `it`"""
        rl = repr(L)
        t = it.t
        x = it.x
        if isinstance(x, tuple) and x and x[0] == 'zip':
            els = [self.loop_elem(st, q, L, node) for q in x[1]]
            return V(mk('tuple', tuple(e.t for e in els)), EMPTY, 'tuple', ('seq', tuple(els)))
        if isinstance(x, tuple) and x and x[0] == 'enum':
            e = self.loop_elem(st, x[1], L, node)
            i = V(mk('idx', x[1].t, rl), EMPTY, 'num')
            return V(mk('tuple', (i.t, e.t)), EMPTY, 'tuple', ('seq', (i, e)))
        if isinstance(x, tuple) and x and x[0] == 'items':
            d = x[1]
            kk = V(mk('key', d.t, rl), EMPTY, None)
            ev = self.elem_of(st, d, mk('val', d.t, rl))
            return V(mk('tuple', (kk.t, ev.t)), EMPTY, 'tuple', ('seq', (kk, ev)))
        if isinstance(x, tuple) and x and x[0] == 'values':
            return self.elem_of(st, x[1], mk('val', x[1].t, rl))
        if isinstance(x, tuple) and x and x[0] == 'keys':
            return V(mk('key', x[1].t, rl), EMPTY, None)
        if it.k == 'dict':
            return V(mk('key', t, rl), EMPTY, None)
        if it.k == 'range':
            return V(mk('elem', t, rl), EMPTY, 'num')
        el = mk('elem', t, rl)
        # iterating a comprehension: the element has the form of its element term
        return self.elem_of(st, it, el)

    # ---- exceptions
    def s_Try(self, s, st):
        sink = []
        self.rsink.append(sink)
        pts = []
        self.trysink.append((self.fr, pts))
        try:
            outs = self.exec_block(s.body, [st.copy()])
        finally:
            self.rsink.pop()
            self.trysink.pop()
        pend = []          # exits that leave the try through finally
        handler_in = []
        for e in sink:
            caught = False
            for h in s.handlers:
                if exc_matches(e.exc, handler_names(h)):
                    handler_in.append((h, e.st, e.exc, e))
                    caught = True
                    if e.exc != '?':
                        break
            if not caught:
                pend.append(e)
        if self.client.track_try:
            for h in s.handlers:
                hn = handler_names(h)
                qs = [q for q, ex in pts if any(exc_matches(x, hn) for x in ex)]
                for q in self.merge(qs, len(qs) > 6):
                    handler_in.append((h, q, '?', None))
        if s.orelse:
            outs = self.exec_block(s.orelse, outs)
        byh = {}
        for h, q, exc, e in handler_in:
            byh.setdefault((id(h), exc), (h, exc, []))[2].append(q)
        for h, exc, qs in byh.values():
            qs = self.merge([q.copy() for q in qs], len(qs) > 6)
            hs = []
            for q in qs:
                if h.name:
                    self.setlocal(q, h.name, V(mk('exc', h.lineno)))
                hs.append(q)
            names = handler_names(h)
            self.handling.append(exc if exc != '?' else (names[0] if names and len(names) == 1 else '?'))
            sink2 = []
            self.rsink.append(sink2)
            try:
                outs += self.exec_block(h.body, hs)
            finally:
                self.rsink.pop()
                self.handling.pop()
            for e2 in sink2:
                e2.implicit = e2.implicit or exc == '?'
            pend += sink2
        if s.finalbody:
            outs = self.exec_block(s.finalbody, outs)
            for e in pend:
                r = self.exec_block(s.finalbody, [e.st])
                for q in r:
                    self.add_raise(Exit('raise', q, None, e.node, e.ctx, e.exc, e.implicit))
        else:
            for e in pend:
                self.add_raise(e)
        return self.merge(outs)
    s_TryStar = s_Try

    def implicit_raise(self, st, node, exc):
        self.add_raise(Exit('raise', st.copy(), None, node, self.ctxt(), exc, True))

    # ------------------------------------------------------------ assignment
    def varkey(self, name):
        fr = self.fr
        if name in fr.assigned:
            return (fr.fid, name)
        p = fr.parent
        while p is not None:
            if name in p.assigned:
                return (p.fid, name)
            p = p.parent
        return (fr.fid, name)

    def setlocal(self, st, name, v):
        if name in self.fr.globals:
            return
        st.env[self.varkey(name)] = v

    def assign(self, st, tgt, v, node, aug=False):
        if isinstance(tgt, ast.Name):
            self.setlocal(st, tgt.id, v)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            n = len(tgt.elts)
            star = [i for i, e in enumerate(tgt.elts) if isinstance(e, ast.Starred)]
            elts = v.x[1] if isinstance(v.x, tuple) and v.x and v.x[0] == 'seq' else None
            if elts is not None and not star and len(elts) == n:
                for e, x in zip(tgt.elts, elts):
                    self.assign(st, e, x, node)
            elif elts is not None and star and len(elts) >= n - 1:
                i = star[0]
                tail = n - 1 - i
                for e, x in zip(tgt.elts[:i], elts[:i]):
                    self.assign(st, e, x, node)
                mid = elts[i:len(elts) - tail]
                self.assign(st, tgt.elts[i].value, V(mk('list', tuple(m.t for m in mid)), EMPTY, 'list',
                                                     ('seq', tuple(mid))), node)
                for e, x in zip(tgt.elts[i + 1:], elts[len(elts) - tail:] if tail else []):
                    self.assign(st, e, x, node)
            else:
                for i, e in enumerate(tgt.elts):
                    if isinstance(e, ast.Starred):
                        self.assign(st, e.value, V(mk('rest', v.t, i), EMPTY, 'list'), node)
                        continue
                    idx = i if not star or i < star[0] else i - n
                    t = mk('sub', v.t, const(idx))
                    self.assign(st, e, self.elem_of(st, v, t), node)
        elif isinstance(tgt, ast.Attribute):
            b = self.ev(tgt.value, st)
            self.store_attr(st, b, tgt.attr, v, node)
        elif isinstance(tgt, ast.Subscript):
            b = self.ev(tgt.value, st)
            i = self.ev_index(tgt.slice, st)
            self.store_sub(st, b, i, v, node, aug)
        elif isinstance(tgt, ast.Starred):
            self.assign(st, tgt.value, v, node)

    def store_attr(self, st, b, name, v, node):
        old = {}
        for loc in b.o:
            old[loc] = st.heap.get((loc, name))
        if b.k == 'func' or b.k == 'ext':
            return
        if not b.o:
            return
        self.client.attr_store(self, st, b.o, name, old, v, node)
        if len(b.o) == 1 and not weak(next(iter(b.o))):
            st.heap[(next(iter(b.o)), name)] = v
        else:
            for loc in b.o:
                o = old[loc]
                if o is None and root(loc)[0] != 'N':
                    o = V(mk('attr0', repr(loc), name), frozenset([F(loc, name)]))
                st.heap[(loc, name)] = self.joinv(o, v, name) if o is not None else v

    def store_sub(self, st, b, i, v, node, aug=False):
        self.mutated(st, b.o, 'setitem', node, (i, v), b)
        fld = idx_field(i)
        # an index with slices belongs to an array: the values are copied in
        sliced = i.t.op == 'slice' or (i.t.op == 'tuple' and any(x.op == 'slice' for x in i.t.a[0]))
        if b.k != 'ndarray' and not (sliced and b.k is None):
            self.store_elem(st, b, fld, v, node)

    def mutated(self, st, locs, how, node, info=(), recv=None):
        if not locs:
            self.client.mutate(self, st, locs, how, node, (recv,) + tuple(info))
            return
        self.client.mutate(self, st, locs, how, node, (recv,) + tuple(info))
        self.bump(st, locs, node)
        # facts on the old contents do not survive
        dead = []
        for t in st.facts:
            for x in walk(t):
                if x.op in ('in', 'len', 'truthy') and recv is not None and contains(x, recv.t):
                    dead.append(t)
                    break
        for t in dead:
            if not self.client_keeps(st, t, how, recv, info):
                st.facts.pop(t, None)

    def client_keeps(self, st, t, how, recv, info):
        """removing one element keeps membership facts of the others: facts on
        a different member term survive removal / extension of the container"""
        if t.op == 'in' and contains(t.a[1], recv.t):
            val = st.facts.get(t)
            if val and how in ('append', 'extend', 'aug+', 'insert'):
                return True
            if val and how in ('pop', 'remove', 'delitem'):
                # pop(index(x)) removes x only
                if info and any(contains(q.t, t.a[0]) for q in info if isinstance(q, V)):
                    return False
                return True
            if (not val) and how in ('pop', 'remove', 'delitem'):
                return True
        return False

    # ----------------------------------------------------------- expressions
    def evf(self, node, st):
        """evaluate with forking on calls / conditionals: [(state, V)]"""
        if isinstance(node, ast.Call):
            return self.call(node, st)
        if isinstance(node, ast.IfExp):
            out = []
            for q, c in self.cond(node.test, st):
                b = q.copy()
                if self.assume(q, c, True):
                    out += self.safe(node.body, q)
                if self.assume(b, c, False):
                    out += self.safe(node.orelse, b)
            return out
        if isinstance(node, ast.BoolOp) and has_call(node):
            # short circuit evaluation
            isand = isinstance(node.op, ast.And)
            out, states = [], [(st, None)]
            for n, sub in enumerate(node.values):
                nxt = []
                for q, _ in states:
                    try:
                        vs = self.evf(sub, q)
                    except Dead:
                        continue
                    for r, v in vs:
                        c = simp('truthy', v.t)
                        if n == len(node.values) - 1:
                            out.append((r, v))
                            continue
                        b = r.copy()
                        if self.assume(r, c, not isand):     # decided
                            out.append((r, V(const(not isand), EMPTY, 'bool') if v.k == 'bool' else v))
                        if self.assume(b, c, isand):
                            nxt.append((b, v))
                states = nxt
            return out
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not) and has_call(node.operand):
            return [(q, V(neg(simp('truthy', v.t)), EMPTY, 'bool')) for q, v in self.evf(node.operand, st)]
        return [(st, self.ev(node, st))]

    def safe(self, node, st):
        try:
            return self.evf(node, st)
        except Dead:
            return []

    def ev(self, node, st):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(node):
                if isinstance(c, ast.expr):
                    self.ev(c, st)
            return V(mk('sym', f'expr:{type(node).__name__}:{self.site(node)[:3]}'))
        return m(node, st)

    def e_Constant(self, n, st):
        v = n.value
        k = ('none' if v is None else 'bool' if isinstance(v, bool) else 'str' if isinstance(v, str)
             else 'num' if isinstance(v, (int, float, complex)) else None)
        return V(const(v if v is not Ellipsis else '...'), EMPTY, k)

    def e_Name(self, n, st):
        return self.lookup(n.id, st, n)

    def lookup(self, name, st, node=None):
        fr = self.fr
        if name not in fr.globals:
            f = fr
            while f is not None:
                if name in f.assigned:
                    v = st.env.get((f.fid, name))
                    if v is not None:
                        return v
                    if f is fr:
                        return V(mk('unbound', name))
                    return V(mk('unbound', name))
                f = f.parent
        r = self.pkg.resolve(self.mod, name)
        if r is not None:
            return self.from_res(r)
        if hasattr(builtins, name):
            return V(mk('ext', 'builtins.' + name), EMPTY, 'ext', 'builtins.' + name)
        return V(mk('global', self.mod.name, name), EMPTY)

    def from_res(self, r):
        if r[0] == 'func':
            return V(mk('func', r[1].qual), EMPTY, 'func', (r[1], None))
        if r[0] == 'class':
            return V(mk('class', r[1].name), EMPTY, 'class', r[1])
        if r[0] == 'module':
            return V(mk('module', r[1].name), EMPTY, 'module', r[1])
        if r[0] == 'ext':
            return V(mk('ext', r[1]), EMPTY, 'ext', r[1])
        _, mod, name, expr = r
        if isinstance(expr, ast.Constant):
            return self.e_Constant(expr, None)
        if isinstance(expr, ast.Lambda):
            f = Func(expr, mod)
            return V(mk('closure', f.qual, expr.lineno), EMPTY, 'func', (f, None))
        k = guess_kind(expr, None) if expr is not None else None
        o = frozenset([('G', mod.name, name)]) if k not in IMMUT else EMPTY
        return V(mk('global', mod.name, name), o, k)

    def e_Attribute(self, n, st):
        b = self.ev(n.value, st)
        return self.get_attr(st, b, n.attr, n)

    def get_attr(self, st, b, name, node):
        if b.k == 'ext':
            return V(mk('ext', b.x + '.' + name), EMPTY, 'ext', b.x + '.' + name)
        if b.k == 'module':
            r = self.pkg.resolve(b.x, name)
            if r:
                return self.from_res(r)
            return V(mk('ext', b.x.name + '.' + name), EMPTY, None)
        if b.k == 'class':
            m = b.x.find(name)
            if m:
                return V(mk('func', m.qual), EMPTY, 'func', (m, None))
            return V(mk('attr', b.t, name), EMPTY, 'str' if name == '__name__' else None)
        if b.k == 'super':
            cls, after, sv = b.x
            m = cls.find(name, after)
            if m is not None:
                return V(mk('bound', m.qual, sv.t), EMPTY, 'bound', (m, cls, sv))
            return V(mk('attr', b.t, name), EMPTY, 'bmeth', (b, name))
        if b.k and b.k.startswith('obj:'):
            c = self.pkg.cls(b.k[4:])
            key_written = any((l, name) in st.heap for l in b.o)
            if c is not None and not key_written:
                m = c.find(name)
                if m is not None:
                    return V(mk('bound', m.qual, b.t), EMPTY, 'bound', (m, c, b))
            kind = self.attr_kind(b.k[4:], name)
            if name == '__dict__':
                return V(mk('attr', b.t, name), b.o, 'objdict')
            return self.read_field(st, b, name, lambda: mk('attr', b.t, name), kind)
        if b.k == 'ndarray':
            if name in ALIAS_ATTR:
                return V(mk('getattr', b.t, name), b.o, 'ndarray')
            if name in ('shape',):
                return V(mk('getattr', b.t, name, self.content_ver(st, b.o)), EMPTY, 'tuple')
            return V(mk('getattr', b.t, name), EMPTY, 'bmeth', (b, name))
        if b.k in ('list', 'dict', 'str', 'tuple', 'set', 'objdict', 'num', 'bool'):
            return V(mk('getattr', b.t, name), EMPTY, 'bmeth', (b, name))
        # unknown object: attribute or method
        r = self.read_field(st, b, name, lambda: mk('attr', b.t, name), None)
        if r.k is None and r.x is None:
            if name in ALIAS_ATTR and b.o:
                return V(mk('getattr', b.t, name), b.o | r.o, None, ('maybe', b, name))
            return V(r.t, r.o, None, ('maybe', b, name))
        return r

    def ev_index(self, n, st):
        if isinstance(n, ast.Slice):
            ps = [self.ev(x, st) if x is not None else V(NONE, k='none') for x in (n.lower, n.upper, n.step)]
            return V(mk('slice', *[p.t for p in ps]), EMPTY, 'slice', ('slice', ps))
        if isinstance(n, ast.Tuple):
            ps = [self.ev_index(x, st) for x in n.elts]
            return V(mk('tuple', tuple(p.t for p in ps)), EMPTY, 'tuple', ('seq', tuple(ps)))
        return self.ev(n, st)

    def e_Subscript(self, n, st):
        b = self.ev(n.value, st)
        i = self.ev_index(n.slice, st)
        return self.get_sub(st, b, i, n)

    def get_sub(self, st, b, i, n):
        e = self.client.implicit(self, st, n, 'getitem', (b, i))
        if e:
            self.implicit_raise(st, n, e)
        if isinstance(b.x, tuple) and b.x and b.x[0] == 'seq' and is_const(i.t) and \
                isinstance(i.t.a[0], int) and not isinstance(i.t.a[0], bool):
            k = i.t.a[0]
            if -len(b.x[1]) <= k < len(b.x[1]) and not any(l in st.ver for l in b.o):
                return b.x[1][k]
        if isinstance(b.x, tuple) and b.x and b.x[0] == 'dictlit' and is_const(i.t):
            v = b.x[1].get(i.t.a[0])
            if v is not None and not any(l in st.ver for l in b.o):
                return v
        ver = self.content_ver(st, b.o)
        t = mk('sub', b.t, i.t, ver) if ver else mk('sub', b.t, i.t)
        if b.k == 'str':
            return V(t, EMPTY, 'str')
        if b.k == 'num':
            return V(t, EMPTY, None)
        if i.k == 'slice':
            if b.k == 'ndarray':
                return V(t, b.o, 'ndarray')
            if b.k in ('list', 'tuple'):
                v = self.new(st, n, t, b.k, 'slice')
                el = self.elem_of(st, b, mk('elem', b.t, 'slice'))
                self.store_elem(st, v, '[*]', el, n)
                if isinstance(b.x, tuple) and b.x and b.x[0] == 'seq' and all(is_const(p.t) for p in i.x[1]) and \
                        not any(l in st.ver for l in b.o):
                    sl = slice(*[p.t.a[0] for p in i.x[1]])
                    v = V(v.t, v.o, v.k, ('seq', tuple(b.x[1])[sl]))
                return v
            return V(t, b.o, b.k)
        if b.k == 'ndarray':
            if is_fancy(i):
                return V(t, EMPTY, 'ndarray')
            full = isinstance(i.x, tuple) and i.x[0] == 'seq' and not any(p.k == 'slice' for p in i.x[1])
            if full:
                return V(t, EMPTY, None)
            return V(t, b.o, 'ndarray' if i.k == 'tuple' else None)
        fld = idx_field(i)
        if isinstance(i.x, tuple) and i.x and i.x[0] == 'seq' and b.k is None:
            # tuple index on unknown: array like
            if any(p.k == 'slice' for p in i.x[1]):
                return V(t, b.o, None)
            if b.o and any(root(l)[0] != 'N' for l in b.o):
                r = self.read_field(st, b, fld, lambda: t)
                return V(t, r.o if r.o != frozenset(F(l, fld) for l in b.o) else EMPTY, r.k, r.x)
        r = self.read_field(st, b, fld, lambda: t)
        if r.t is t or (len(b.o) == 1 and fld != '[*]'):
            return r
        return V(t, r.o, r.k, r.x)

    def e_BinOp(self, n, st):
        l, r = self.ev(n.left, st), self.ev(n.right, st)
        op = ARITH.get(type(n.op), '?')
        k = None
        if 'ndarray' in (l.k, r.k):
            k = 'ndarray'
        elif op == '%' and l.k == 'str':
            k = 'str'
        elif l.k == r.k and l.k in ('num', 'str', 'list', 'tuple', 'bool'):
            k = l.k
        elif 'str' in (l.k, r.k) and op == '+':
            k = 'str'
        elif 'list' in (l.k, r.k) and op in '+*':
            k = 'list'
        elif op == '@':
            k = 'ndarray'
        t = simp('bin', op, l.t, r.t)
        if is_const(l.t) and is_const(r.t) and k in ('num', 'str'):
            try:
                val = fold(op, l.t.a[0], r.t.a[0])
                return V(const(val), EMPTY, k)
            except Exception:
                pass
        if k in ('list',):
            v = self.new(st, n, t, k, 'binop')
            for q in (l, r):
                if q.k in ('list', 'tuple') or q.o:
                    self.store_elem(st, v, '[*]', self.elem_of(st, q, mk('elem', q.t, 'cat')), n)
            if op == '+' and all(isinstance(q.x, tuple) and q.x and q.x[0] == 'seq' for q in (l, r)) and not any(
                    z in st.ver for z in l.o | r.o):
                v = V(v.t, v.o, v.k, ('seq', tuple(l.x[1]) + tuple(r.x[1])))
            return v
        return V(t, frozenset([('N', self.site(n, 'bin'))]) if k == 'ndarray' else EMPTY, k)

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not):
            return V(neg(simp('truthy', v.t)), EMPTY, 'bool')
        if isinstance(n.op, ast.USub):
            if is_const(v.t) and isinstance(v.t.a[0], (int, float, complex)):
                return V(const(-v.t.a[0]), EMPTY, 'num')
            return V(mk('neg', v.t), EMPTY, v.k if v.k in ('num', 'ndarray') else None)
        if isinstance(n.op, ast.UAdd):
            return V(v.t, EMPTY, v.k)
        return V(mk('inv', v.t), EMPTY, v.k)

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        ts, o, k, cur = [], EMPTY, None, st
        first = True
        for sub in n.values:
            if first or not has_call(sub):
                v = self.ev(sub, cur)
            else:
                # evaluated only if the previous operands did not decide
                c = mk('and' if isand else 'or', *ts) if len(ts) > 1 else ts[0]
                q = st.copy()
                try:
                    if self.assume(q, simp('truthy', c), isand):
                        v = self.ev(sub, q)
                        j = self.join(st, q)
                        st.env, st.heap, st.facts, st.ver, st.g = j.env, j.heap, j.facts, j.ver, j.g
                    else:
                        break
                except Dead:
                    continue
            first = False
            ts.append(simp('truthy', v.t) if v.k == 'bool' or v.t.op in ('eq', 'in', 'is', 'not', 'cmp') else v.t)
            o |= v.o
            k = v.k if k in (None, v.k) else None
        return V(simp('and' if isand else 'or', *ts), o, k)

    def e_IfExp(self, n, st):
        c = simp('truthy', self.ev(n.test, st).t)
        r = self.truth(st, c)
        if r is not None:
            return self.ev(n.body if r else n.orelse, st)
        a = b = None
        q = st.copy()
        if self.assume(q, c, True):
            try:
                a = self.ev(n.body, q)
            except Dead:
                a = None
        q2 = st.copy()
        if self.assume(q2, c, False):
            try:
                b = self.ev(n.orelse, q2)
            except Dead:
                b = None
        if a is None and b is None:
            raise Dead()
        j = self.join(q, q2) if (a is not None and b is not None) else (q if a is not None else q2)
        st.env, st.heap, st.ver, st.g = j.env, j.heap, j.ver, j.g
        if a is None or b is None:
            return a or b
        k = a.k if a.k == b.k else (a.k if b.k == 'none' else b.k if a.k == 'none' else None)
        return V(simp('ite', c, a.t, b.t), a.o | b.o, k, a.x if a.x is b.x else None)

    def e_Compare(self, n, st):
        l = self.ev(n.left, st)
        ts = []
        for op, c in zip(n.ops, n.comparators):
            r = self.ev(c, st)
            t = self.cmp(st, op, l, r)
            self.client.compare(self, st, n, op, l, r, t)
            ts.append(t)
            l = r
        return V(simp('and', *ts) if len(ts) > 1 else ts[0], EMPTY, 'bool')

    def cmp(self, st, op, l, r):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            a, b = l.t, r.t
            if is_const(a) and not is_const(b):
                a, b = b, a
            elif not is_const(b) and a.id > b.id:
                a, b = b, a
            if is_const(a) and is_const(b):
                t = const(a.a[0] == b.a[0])
            elif a is b and l.k != 'ndarray':
                t = TRUE
            else:
                t = mk('eq', a, b)
            return t if isinstance(op, ast.Eq) else neg(t)
        if isinstance(op, (ast.Is, ast.IsNot)):
            a, b = l.t, r.t
            if a is NONE:
                a, b = b, a
            if is_const(a) and is_const(b):
                t = const(a.a[0] is b.a[0] or a.a[0] == b.a[0])
            elif a is b:
                t = TRUE
            elif b is NONE and (l.k or 'none') != 'none' and a.op not in ('sym', 'phi', 'ite', 'attr', 'lv') and \
                    l.k in ('list', 'dict', 'ndarray', 'tuple', 'num', 'str', 'bool'):
                t = FALSE
            else:
                t = mk('is', a, b)
            return t if isinstance(op, ast.Is) else neg(t)
        if isinstance(op, (ast.In, ast.NotIn)):
            ver = self.content_ver(st, r.o)
            rt = r.t
            t = mk('in', l.t, rt)
            if isinstance(r.x, tuple) and r.x and r.x[0] == 'seq' and is_const(l.t) and \
                    all(is_const(e.t) for e in r.x[1]):
                t = const(any(e.t.a[0] == l.t.a[0] for e in r.x[1]))
            return t if isinstance(op, ast.In) else neg(t)
        nm = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[type(op)]
        a, b = l.t, r.t
        if nm in ('>', '>='):
            a, b, nm = b, a, {'>': '<', '>=': '<='}[nm]
        if is_const(a) and is_const(b):
            try:
                return const(a.a[0] < b.a[0] if nm == '<' else a.a[0] <= b.a[0])
            except TypeError:
                pass
        if nm == '<=':       # a <= b  ==  not b < a
            return neg(mk('cmp', '<', b, a))
        return mk('cmp', '<', a, b)

    def e_Tuple(self, n, st):
        return self.seq(n, st, 'tuple')

    def e_List(self, n, st):
        return self.seq(n, st, 'list')

    def seq(self, n, st, k):
        es, lit = [], True
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                le = self.literal_elts(st, v)
                if le is not None:
                    es += le
                else:
                    lit = False
                    es.append(self.elem_of(st, v, mk('star', v.t)))
            else:
                es.append(self.ev(e, st))
        t = mk(k, tuple(e.t for e in es))
        if k == 'tuple':
            return V(t, EMPTY, 'tuple', ('seq', tuple(es)) if lit else None) if not es or lit else \
                self.fill(st, n, t, k, es, None)
        return self.fill(st, n, t, k, es, ('seq', tuple(es)) if lit else None)

    def fill(self, st, n, t, k, es, x):
        v = self.new(st, n, t, k)
        for e in es:
            self.store_elem(st, v, '[*]', e, n)
        loc = next(iter(v.o))
        st.ver.pop(loc, None)
        return V(v.t, v.o, k, x)

    def e_Set(self, n, st):
        es = [self.ev(e, st) for e in n.elts]
        return self.fill(st, n, mk('set', tuple(e.t for e in es)), 'set', es, None)

    def e_Dict(self, n, st):
        ks, lit = [], {}
        v = self.new(st, n, mk('sym', f'dict:{self.site(n)}'), 'dict')
        loc = next(iter(v.o))
        st.ver.pop(loc, None)
        ok = True
        items = []
        for kx, vx in zip(n.keys, n.values):
            if kx is None:
                d = self.ev(vx, st)
                self.store_elem(st, v, '[*]', self.elem_of(st, d, mk('star', d.t)), n)
                items.append((mk('**', d.t), d.t))
                ok = False
                continue
            kv, vv = self.ev(kx, st), self.ev(vx, st)
            items.append((kv.t, vv.t))
            self.store_elem(st, v, idx_field(kv), vv, n)
            if is_const(kv.t):
                lit[kv.t.a[0]] = vv
            else:
                ok = False
        return V(mk('dict', tuple(items)), v.o, 'dict', ('dictlit', lit) if ok else None)

    def e_JoinedStr(self, n, st):
        parts = []
        for p in n.values:
            if isinstance(p, ast.FormattedValue):
                v = self.ev(p.value, st)
                if p.format_spec is not None:
                    self.ev(p.format_spec, st)
                parts.append(v.t)
            else:
                parts.append(const(p.value))
        if len(parts) == 1 and is_const(parts[0]):
            return V(parts[0], EMPTY, 'str')
        # f'->{p}' and '->'+p have the same value number
        t = parts[0] if parts else const('')
        if parts and not is_const(parts[0]):
            t = mk('fmt', parts[0]) if len(parts) == 1 else parts[0]
        for p in parts[1:]:
            t = mk('bin', '+', t, p)
        return V(t, EMPTY, 'str')

    def e_Lambda(self, n, st):
        f = Func(n, self.mod, None, self.fr.func)
        return V(mk('closure', f.qual, n.lineno, n.col_offset), EMPTY, 'func', (f, self.fr))

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(st, n.target, v, n)
        return v

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        if n.value is not None:
            v = self.ev(n.value, st)
            self.fr.returns.append(Exit('yield', st.copy(), v, n, self.ctxt()))
        return V(mk('sym', 'yielded'))

    def e_YieldFrom(self, n, st):
        self.ev(n.value, st)
        return V(mk('sym', 'yielded'))

    def e_Slice(self, n, st):
        return self.ev_index(n, st)

    # ---- comprehensions
    def e_ListComp(self, n, st):
        return self.comp(n, st, 'list', n.elt)

    def e_SetComp(self, n, st):
        return self.comp(n, st, 'set', n.elt)

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, 'list', n.elt, gen=True)

    def e_DictComp(self, n, st):
        return self.comp(n, st, 'dict', n.value, key=n.key)

    def comp(self, n, st, k, elt, key=None, gen=False):
        fr = self.fr
        names = set()
        for g in n.generators:
            names |= {q.id for q in ast.walk(g.target) if isinstance(q, ast.Name)}
        saved = {nm: st.env.get((fr.fid, nm)) for nm in names}
        had = {nm for nm in names if nm in fr.assigned}
        fr.assigned |= names
        its, conds = [], []
        saved_facts = dict(st.facts)
        depth = getattr(self, '_cd', 0)
        self._cd = depth + 1
        try:
            for gi, g in enumerate(n.generators):
                it = self.ev(g.iter, st)
                L = ('bv', depth, gi)
                self.assign(st, g.target, self.loop_elem(st, it, L, g.iter), n)
                its.append(it.t)
                for c in g.ifs:
                    cv = simp('truthy', self.ev(c, st).t)
                    conds.append(cv)
                    self.assume(st, cv, True)
            kv = self.ev(key, st) if key is not None else None
            try:
                v = self.ev(elt, st)
            except Dead:
                v = V(mk('sym', 'dead'))
        finally:
            self._cd = depth
            for nm in names:
                st.env.pop((fr.fid, nm), None)
                if saved[nm] is not None:
                    st.env[(fr.fid, nm)] = saved[nm]
            fr.assigned -= (names - had)
            st.facts = {t: b for t, b in st.facts.items() if t in saved_facts}
        t = mk('comp', k, v.t if kv is None else mk('tuple', (kv.t, v.t)), tuple(its), tuple(conds))
        r = self.new(st, n, t, k)
        loc = next(iter(r.o))
        st.ver.pop(loc, None)
        self.store_elem(st, r, '[*]', v, n)
        return V(t, r.o, k)

    # ----------------------------------------------------------------- calls
    def e_Call(self, n, st):
        rs = self.call(n, st)
        if not rs:
            raise Dead()
        if len(rs) == 1:
            q, v = rs[0]
            if q is not st:
                st.env, st.heap, st.facts, st.ver, st.g = q.env, q.heap, q.facts, q.ver, q.g
            return v
        j, v = rs[0]
        for q, w in rs[1:]:
            v = self.joinv(v, w, 'ret')
            j = self.join(j, q)
        st.env, st.heap, st.facts, st.ver, st.g = j.env, j.heap, j.facts, j.ver, j.g
        return v

    def call(self, n, st):
        """-> [(state, V)]"""
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            f = self.fr
            while f is not None and f.func.cls is None:
                f = f.parent
            if f is not None:
                a = f.func.node.args
                nm = (a.posonlyargs + a.args)[0].arg
                sv = st.env.get((f.fid, nm))
                rc = f.cls or f.func.cls
                return [(st, V(mk('super', sv.t if sv else mk('sym', 'self')), EMPTY, 'super', (rc, f.func.cls, sv)))]
        fv = self.ev(n.func, st)
        args, kws, star = [], {}, None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                le = self.literal_elts(st, v)
                if le is not None:
                    args += le
                else:
                    args.append(V(mk('star', v.t), v.o, v.k, ('star', v)))
            else:
                args.append(self.ev(a, st))
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                if isinstance(v.x, tuple) and v.x and v.x[0] == 'dictlit' and not any(l in st.ver for l in v.o):
                    for kk, vv in v.x[1].items():
                        kws[kk] = vv
                else:
                    kws['**'] = v
            else:
                kws[k.arg] = v
        return self.apply(n, st, fv, args, kws)

    def apply(self, n, st, fv, args, kws):
        r = self.client.call(self, st, n, fv, args, kws)
        if r is not None:
            return r if isinstance(r, list) else [(st, r)]
        if isinstance(fv.x, tuple) and fv.x and fv.x[0] == 'maybe' and fv.k is None:
            return self.call_method(n, st, fv.x[1], fv.x[2], args, kws, fv)
        if fv.k in ('func', 'bound', 'class', 'bmeth', 'ext') and fv.x is None:
            return [(st, V(self.callterm(fv.t, args, kws)))]
        if fv.k == 'func':
            f, parent = fv.x
            if f.name in NOOP_FUNCS:
                return [(st, V(mk('call', f.name, tuple(a.t for a in args)), EMPTY, 'str' if f.name in ('ident', 'whoami') else None))]
            return self.inline(n, st, f, parent, None, None, args, kws, fv)
        if fv.k == 'bound':
            f, cls, recv = fv.x
            return self.inline(n, st, f, None, cls, recv, args, kws, fv)
        if fv.k == 'class':
            return self.construct(n, st, fv, args, kws)
        if fv.k == 'bmeth':
            return self.call_method(n, st, fv.x[0], fv.x[1], args, kws, fv)
        if fv.k == 'ext':
            return self.call_ext(n, st, fv, args, kws)
        if fv.k is None and fv.t.op in ('attr', 'sub', 'sym'):
            pass
        t = self.callterm(fv.t, args, kws)
        return [(st, V(t))]

    def callterm(self, ft, args, kws):
        return mk('call', ft, tuple(a.t for a in args),
                  tuple((k, kws[k].t) for k in sorted(kws)))

    def construct(self, n, st, fv, args, kws):
        c = fv.x
        t = mk('newobj', c.name, self.site(n)[:3], tuple(a.t for a in args),
               tuple((k, kws[k].t) for k in sorted(kws)))
        v = self.new(st, n, t, 'obj:' + c.name, 'obj')
        return [(st, v)]

    def call_method(self, n, st, recv, name, args, kws, fv):
        t = mk('call', mk('getattr', recv.t, name), tuple(a.t for a in args),
               tuple((k, kws[k].t) for k in sorted(kws)))
        ver = self.content_ver(st, recv.o)
        if ver and recv.k in ('list', 'dict', 'set', 'ndarray'):
            t = mk('vcall', t, ver)
        k = recv.k
        e = self.client.implicit(self, st, n, 'method', (recv, name, args, kws))
        if e:
            self.implicit_raise(st, n, e)
        if name in MUTATORS and (recv.k in (None, 'list', 'dict', 'set', 'ndarray', 'objdict')):
            if recv.o or recv.k is None:
                elem = None
                if name in ('pop', 'setdefault', 'popitem'):
                    elem = self.elem_of(st, recv, t)
                    if args and recv.k == 'dict':
                        r0 = self.read_field(st, recv, idx_field(args[0]), lambda: t)
                        elem = V(t, r0.o, r0.k)
                    if len(args) > 1:
                        elem = self.joinv(elem, args[1], 'pop')
                        elem = V(t, elem.o, elem.k)
                self.mutated(st, recv.o, name, n, tuple(args), recv)
                if name in ('append', 'add', 'insert', 'appendleft') and args:
                    self.store_elem(st, recv, '[*]', args[-1], n)
                elif name in ('extend', 'update') and args:
                    self.store_elem(st, recv, '[*]', self.elem_of(st, args[0], mk('elem', args[0].t, 'ext')), n)
                    for kk, vv in kws.items():
                        if kk != '**':
                            self.store_elem(st, recv, f'[{kk!r}]', vv, n)
                elif name == 'update':
                    for kk, vv in kws.items():
                        if kk != '**':
                            self.store_elem(st, recv, f'[{kk!r}]', vv, n)
                elif name == 'setdefault' and len(args) > 1:
                    self.store_elem(st, recv, idx_field(args[0]), args[1], n)
                if elem is not None:
                    return [(st, elem)]
                return [(st, V(NONE, k='none') if k else V(t))]
        if name == 'copy' and not args:
            if k in ('list', 'dict', 'set', None, 'objdict'):
                v = self.new(st, n, mk('copy', recv.t), k if k != 'objdict' else 'dict', 'copy')
                el = self.elem_of(st, recv, mk('elem', recv.t, 'copy'))
                if k is None:
                    # an array, a dict or an RF object: rf objects copy deeply,
                    # arrays have no nested objects
                    return [(st, v)]
                if k == 'objdict':
                    # fields of the object itself
                    self.copy_fields(st, recv, v)
                    el = V(el.t, frozenset(F(l, '*attr*') for l in recv.o), None)
                st.heap[(next(iter(v.o)), '[*]')] = el
                if isinstance(recv.x, tuple) and recv.x and recv.x[0] in ('seq', 'dictlit') and not any(
                        l in st.ver for l in recv.o):
                    v = V(v.t, v.o, v.k, recv.x)
                return [(st, v)]
            return [(st, V(mk('copy', recv.t), frozenset([('N', self.site(n, 'copy'))]), k))]
        if name in ('items', 'values', 'keys') and not args:
            if isinstance(recv.x, tuple) and recv.x and recv.x[0] == 'dictlit' and not any(l in st.ver for l in recv.o):
                d = recv.x[1]
                if name == 'items':
                    es = tuple(V(mk('tuple', (const(a), b.t)), EMPTY, 'tuple', ('seq', (V(const(a), EMPTY, 'str' if isinstance(a, str) else None), b)))
                               for a, b in d.items())
                elif name == 'values':
                    es = tuple(d.values())
                else:
                    es = tuple(V(const(a), EMPTY, 'str' if isinstance(a, str) else None) for a in d)
                return [(st, V(t, EMPTY, 'list', ('seq', es)))]
            return [(st, V(t, recv.o, 'view', (name, recv)))]
        if name == 'get' and args:
            r = self.read_field(st, recv, idx_field(args[0]), lambda: t)
            r = V(t, r.o, r.k)
            if len(args) > 1:
                r = V(t, r.o | args[1].o, r.k if r.k == args[1].k else None)
            return [(st, r)]
        if name in ALIAS_METH and k in (None, 'ndarray'):
            if k == 'ndarray' or recv.o:
                return [(st, V(t, recv.o, k))]
        if k == 'str':
            if name in ('split', 'rsplit', 'splitlines'):
                v = self.new(st, n, t, 'list')
                st.heap[(next(iter(v.o)), '[*]')] = V(mk('elem', t, 'split'), EMPTY, 'str')
                return [(st, v)]
            kk = 'str' if name in ('upper', 'lower', 'strip', 'replace', 'join', 'format', 'lstrip', 'rstrip',
                                   'ljust', 'rjust', 'center', 'title', 'removeprefix', 'removesuffix') else (
                'bool' if name in ('startswith', 'endswith', 'isdigit') else None)
            return [(st, V(t, EMPTY, kk))]
        if k == 'ndarray' and name in ('astype', 'conj', 'conjugate', 'dot', 'flatten', 'round', 'cumsum'):
            return [(st, V(t, EMPTY, 'ndarray'))]
        if name == 'tolist':
            return [(st, self.new(st, n, t, 'list'))]
        if name == '__getitem__' and args:
            return [(st, self.get_sub(st, recv, args[0], n))]
        if name == '__len__':
            return [(st, V(mk('len', recv.t), EMPTY, 'num'))]
        return [(st, V(t))]

    def copy_fields(self, st, src, dst):
        d = next(iter(dst.o))
        for l in src.o:
            for (q, f), v in list(st.heap.items()):
                if q == l:
                    st.heap[(d, f'[{f!r}]')] = v

    def call_ext(self, n, st, fv, args, kws):
        nm = fv.x
        short = nm.split('.')[-1]
        t = self.callterm(fv.t, args, kws)
        if nm.startswith('builtins.'):
            return self.call_builtin(n, st, short, args, kws, t)
        if nm in ('copy.deepcopy',):
            v = self.new(st, n, mk('deepcopy', args[0].t) if args else t, args[0].k if args else None, 'deepcopy')
            return [(st, v)]
        if nm in ('copy.copy',) and args:
            return self.call_method(n, st, args[0], 'copy', [], {}, fv)
        if nm.startswith('numpy'):
            if short in TO_ARRAY and args and args[0].k in ('list', 'tuple'):
                return [(st, V(t, frozenset([('N', self.site(n, 'np'))]), 'ndarray'))]
            if short in TO_ARRAY and args and args[0].k is None:
                return [(st, V(t, args[0].o or frozenset([('N', self.site(n, 'np'))]), 'ndarray'))]
            if short in ALIAS_NP and args:
                return [(st, V(t, args[0].o, args[0].k if args[0].k == 'ndarray' else 'ndarray' if args[0].k is None and not args[0].o else args[0].k))]
            if short == 'array' and 'copy' in kws and kws['copy'].t in (FALSE, NONE) and args:
                return [(st, V(t, args[0].o, 'ndarray'))]
            if short in ('where', 'nonzero', 'unique', 'meshgrid'):
                return [(st, V(t, EMPTY, None))]
            if short in ('abs', 'max', 'min', 'sum', 'mean', 'round', 'ceil', 'floor', 'angle', 'isnan', 'isinf',
                         'all', 'any', 'allclose', 'isclose', 'trace', 'argmax', 'argmin', 'exp', 'log', 'sqrt',
                         'log10', 'cos', 'sin', 'tan', 'sign', 'conj', 'absolute'):
                return [(st, V(t, EMPTY, 'ndarray' if args and args[0].k == 'ndarray' and short not in (
                    'max', 'min', 'sum', 'all', 'any', 'allclose') else None))]
            for w in ('copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'put_along_axis'):
                if short == w and args:
                    self.mutated(st, args[0].o, short, n, tuple(args[1:]), args[0])
                    return [(st, V(NONE, k='none'))]
            if 'out' in kws:
                self.mutated(st, kws['out'].o, 'out=', n, (), kws['out'])
            return [(st, V(t, frozenset([('N', self.site(n, 'np'))]), 'ndarray'))]
        if short in LOGGER_METHS and 'tLogger' in nm:
            return [(st, V(NONE, k='none'))]
        return [(st, V(t))]

    def call_builtin(self, n, st, name, args, kws, t):
        a0 = args[0] if args else None
        if name == 'len' and a0 is not None:
            e = self.client.implicit(self, st, n, 'len', (a0,))
            if e:
                self.implicit_raise(st, n, e)
            le = self.literal_elts(st, a0)
            if le is not None:
                return [(st, V(const(len(le)), EMPTY, 'num'))]
            if a0.k and a0.k.startswith('obj:'):
                c = self.pkg.cls(a0.k[4:])
                m = c.find('__len__') if c else None
                if m is not None:
                    return self.inline(n, st, m, None, c, a0, [], {}, V(mk('func', m.qual)))
            ver = self.content_ver(st, a0.o)
            return [(st, V(mk('len', a0.t, ver) if ver else mk('len', a0.t), EMPTY, 'num'))]
        if name == 'isinstance' and len(args) == 2:
            tys = tyset(args[1].t)
            r = kind_isinstance(a0.k, tys)
            return [(st, V(const(r) if r is not None else mk('isinstance', a0.t, args[1].t), EMPTY, 'bool'))]
        if name == 'hasattr' and len(args) == 2:
            tt = mk('hasattr', a0.t, args[1].t)
            return [(st, V(tt, EMPTY, 'bool'))]
        if name == 'getattr' and len(args) >= 2:
            if is_const(args[1].t) and isinstance(args[1].t.a[0], str):
                v = self.get_attr(st, a0, args[1].t.a[0], n)
                if len(args) > 2:
                    v = V(mk('getattrd', v.t, args[2].t), v.o | args[2].o, v.k if v.k == args[2].k else None)
                return [(st, v)]
            cur = st.heap.get((('dattr', a0.t, args[1].t, a0.o), '*'))
            if cur is not None:
                return [(st, cur)]
            return [(st, V(mk('dattr', a0.t, args[1].t), frozenset(F(l, '*attr*') for l in a0.o), None))]
        if name == 'setattr' and len(args) == 3:
            if is_const(args[1].t) and isinstance(args[1].t.a[0], str):
                self.store_attr(st, a0, args[1].t.a[0], args[2], n)
            else:
                self.client.attr_store(self, st, a0.o, None, {'dattr': (a0, args[1])}, args[2], n)
                st.heap[(('dattr', a0.t, args[1].t, a0.o), '*')] = args[2]
            return [(st, V(NONE, k='none'))]
        if name == 'zip':
            les = [self.literal_elts(st, a) for a in args]
            if args and all(le is not None for le in les):
                es = []
                for tup in zip(*les):
                    es.append(V(mk('tuple', tuple(e.t for e in tup)), EMPTY, 'tuple', ('seq', tuple(tup))))
                return [(st, V(t, EMPTY, 'list', ('seq', tuple(es))))]
            return [(st, V(t, EMPTY, 'iter', ('zip', tuple(args))))]
        if name == 'enumerate' and args:
            le = self.literal_elts(st, a0)
            if le is not None and len(args) == 1 and not kws:
                es = tuple(V(mk('tuple', (const(i), e.t)), EMPTY, 'tuple',
                             ('seq', (V(const(i), EMPTY, 'num'), e))) for i, e in enumerate(le))
                return [(st, V(t, EMPTY, 'list', ('seq', es)))]
            return [(st, V(t, EMPTY, 'iter', ('enum', a0)))]
        if name == 'range':
            if args and all(is_const(a.t) and isinstance(a.t.a[0], int) for a in args):
                r = range(*[a.t.a[0] for a in args])
                if len(r) <= 12:
                    return [(st, V(t, EMPTY, 'range', ('seq', tuple(V(const(i), EMPTY, 'num') for i in r))))]
            return [(st, V(t, EMPTY, 'range'))]
        if name in ('list', 'tuple', 'sorted', 'set', 'frozenset', 'reversed') and args:
            k = {'list': 'list', 'sorted': 'list', 'tuple': 'tuple', 'set': 'set', 'frozenset': 'set',
                 'reversed': 'list'}[name]
            v = self.new(st, n, t, k, name)
            st.ver.pop(next(iter(v.o)), None)
            el = self.elem_of(st, a0, mk('elem', a0.t, name)) if a0.k != 'view' else self.loop_elem(st, a0, ('conv',), n)
            st.heap[(next(iter(v.o)), '[*]')] = el
            le = self.literal_elts(st, a0)
            if le is not None and name in ('list', 'tuple'):
                v = V(v.t, v.o, v.k, ('seq', tuple(le)))
            return [(st, v)]
        if name in ('list', 'dict', 'set', 'tuple') and not args and not kws:
            v = self.new(st, n, mk(name, ()), name)
            return [(st, V(v.t, v.o, v.k, ('dictlit', {}) if name == 'dict' else ('seq', ())))]
        if name == 'dict':
            v = self.new(st, n, t, 'dict', 'dict')
            st.ver.pop(next(iter(v.o)), None)
            lit = {}
            ok = not args and '**' not in kws
            if args:
                el = self.elem_of(st, a0, mk('elem', a0.t, 'dict'))
                st.heap[(next(iter(v.o)), '[*]')] = el
                if isinstance(a0.x, tuple) and a0.x and a0.x[0] == 'dictlit' and '**' not in kws and not any(
                        l in st.ver for l in a0.o):
                    lit.update(a0.x[1])
                    ok = True
            for kk, vv in kws.items():
                if kk == '**':
                    self.store_elem(st, v, '[*]', self.elem_of(st, vv, mk('star', vv.t)), n)
                else:
                    self.store_elem(st, v, f'[{kk!r}]', vv, n)
                    lit[kk] = vv
            return [(st, V(v.t, v.o, 'dict', ('dictlit', lit) if ok else None))]
        if name in ('str', 'repr', 'hex', 'chr', 'format'):
            if name == 'str' and a0 is not None and a0.k == 'str':
                return [(st, V(a0.t, EMPTY, 'str'))]
            return [(st, V(t, EMPTY, 'str'))]
        if name in ('int', 'float', 'complex', 'abs', 'round', 'sum', 'id', 'hash', 'ord'):
            e = self.client.implicit(self, st, n, name, args)
            if e:
                self.implicit_raise(st, n, e)
            return [(st, V(t, EMPTY, 'num' if name in ('int', 'float', 'id') else None))]
        if name in ('any', 'all') and args:
            return [(st, V(self.quant(name, a0), EMPTY, 'bool'))]
        if name in ('bool', 'callable', 'issubclass'):
            if name == 'bool' and a0 is not None:
                return [(st, V(simp('truthy', a0.t), EMPTY, 'bool'))]
            return [(st, V(t, EMPTY, 'bool'))]
        if name in ('max', 'min', 'next', 'iter') and args:
            el = self.elem_of(st, a0, t) if len(args) == 1 or name in ('next', 'iter') else V(t)
            return [(st, V(t, el.o if name in ('next', 'iter') else EMPTY, el.k if name == 'next' else None))]
        if name == 'map' and len(args) >= 2:
            v = self.new(st, n, t, 'list', 'map')
            el = self.loop_elem(st, args[1], ('map',), n)
            rs = self.apply(n, st, a0, [el], {})
            if rs:
                st.heap[(next(iter(v.o)), '[*]')] = rs[0][1]
            return [(st, v)]
        if name == 'filter' and len(args) >= 2:
            return [(st, V(t, args[1].o, args[1].k))]
        if name == 'vars' and args:
            return [(st, V(t, a0.o, 'objdict'))]
        if name == 'type':
            return [(st, V(mk('typeof', a0.t) if a0 else t))]
        return [(st, V(t, EMPTY, None))]

    def quant(self, name, a0):
        """any([c(x) for x in it]) -> ('exists', it, c)"""
        t = a0.t
        if t.op in ('list', 'tuple') and isinstance(t.a[0], tuple):
            return simp('or' if name == 'any' else 'and', *[simp('truthy', x) for x in t.a[0]])
        if t.op == 'comp' and len(t.a[2]) == 1:
            c = simp('truthy', t.a[1])
            conds = t.a[3]
            if name == 'any':
                body = simp('and', *(list(conds) + [c])) if conds else c
                return mk('exists', t.a[2][0], body)
            body = simp('or', *([neg(x) for x in conds] + [c])) if conds else c
            return neg(mk('exists', t.a[2][0], neg(body)))
        return mk('call', mk('ext', 'builtins.' + name), (t,), ())

    # ---- inlining
    def inline(self, n, st, f, parent, cls, recv, args, kws, fv):
        t0 = self.callterm(fv.t, args, kws)
        depth = len(self.ctx)
        if depth >= self.client.inline_depth or any(c[0] is f.node for c in self.ctx) or self.client.no_inline(f):
            return [(st, V(t0, EMPTY, None))]
        fid = ('i', f.qual, getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0), depth)
        cfr = self.frames[-1]
        fr = self.push(f, parent, cls if cls is not None else (recv and self.pkg.cls((recv.k or '')[4:]) or f.cls), fid)
        self.ctx.append((f.node, getattr(n, 'lineno', 0), f))
        try:
            ok = self.bind_call(fr, st, f, recv, args, kws, n)
            node = f.node
            body = node.body if not isinstance(node, ast.Lambda) else [
                ast.copy_location(ast.Return(value=node.body), node)]
            saved_loops, self.loops = self.loops, []
            saved_try, self.trysink = self.trysink, []
            try:
                outs = self.exec_block(body, [st])
            finally:
                self.loops = saved_loops
                self.trysink = saved_try
        finally:
            self.frames.pop()
            self.ctx.pop()
        gen = any(e.kind == 'yield' for e in fr.returns)
        rets = [(e.st, e.v) for e in fr.returns if e.kind == 'return'] + [(s, V(NONE, k='none')) for s in outs]
        if gen:
            ys = [e.v for e in fr.returns if e.kind == 'yield']
            el = ys[0]
            for y in ys[1:]:
                el = self.joinv(el, y, 'yield')
            r2 = []
            for s, _ in rets:
                v = self.new(s, n, t0, 'list', 'gen')
                s.heap[(next(iter(v.o)), '[*]')] = el
                r2.append((s, v))
            rets = r2
        closures = has_closure(f.node)
        for s, v in rets:
            if not closures:
                for key in [k for k in s.env if k[0] == fid]:
                    del s.env[key]
        # merge equal results
        d = {}
        for s, v in rets:
            d.setdefault(v.key(), (v, []))[1].append(s)
        res = []
        for v, ss in d.values():
            for s in self.merge(ss, len(ss) > 4):
                res.append((s, v))
        if len(res) > self.client.max_states:
            dd = {}
            for s, v in res:
                k = (self.client.key(self, s), v.t if v.t.op == 'const' else None)
                if k in dd:
                    s0, v0 = dd[k]
                    dd[k] = (self.join(s0, s), self.joinv(v0, v, 'ret'))
                else:
                    dd[k] = (s, v)
            res = list(dd.values())
        return res

    def bind_call(self, fr, st, f, recv, args, kws, n):
        a = f.node.args
        pos = a.posonlyargs + a.args
        names = [p.arg for p in pos]
        bound = {}
        static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in getattr(f.node, 'decorator_list', []))
        isclassm = any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in getattr(f.node, 'decorator_list', []))
        args = list(args)
        if recv is not None and not static:
            args = [recv] + args
        rest = []
        star = None
        i = 0
        for v in args:
            if isinstance(v.x, tuple) and v.x and v.x[0] == 'star':
                star = v.x[1]
                continue
            if i < len(names) and star is None:
                bound[names[i]] = v
                i += 1
            else:
                rest.append(v)
        kwrest = {}
        kwnames = names + [p.arg for p in a.kwonlyargs]
        for k, v in kws.items():
            if k == '**':
                continue
            if k in kwnames:
                bound[k] = v
            else:
                kwrest[k] = v
        dstar = kws.get('**')
        for p in pos + a.kwonlyargs:
            if p.arg in bound:
                st.env[(fr.fid, p.arg)] = bound[p.arg]
                continue
            if star is not None and p in pos:
                st.env[(fr.fid, p.arg)] = self.elem_of(st, star, mk('starval', star.t, p.arg))
                continue
            d = default_of(a, p)
            dv = None
            if d is not None:
                if isinstance(d, ast.Constant):
                    dv = self.e_Constant(d, st)
                elif is_mutable_expr(d):
                    k = guess_kind(d, None)
                    empty = (isinstance(d, ast.Dict) and not d.keys) or (isinstance(d, ast.List) and not d.elts)
                    dv = V(mk('default', f.qual, p.arg), frozenset([('D', f.qual, p.arg)]), k)
                    if empty:
                        dv = V(mk('dict', ()) if k == 'dict' else mk('list', ()), dv.o, k,
                               ('dictlit', {}) if k == 'dict' else ('seq', ()))
                else:
                    dv = V(mk('default', f.qual, p.arg))
                    if isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant):
                        dv = V(const(-d.operand.value) if isinstance(d.op, ast.USub) else const(d.operand.value), EMPTY, 'num')
            if dstar is not None:
                kv = self.elem_of(st, dstar, mk('kwval', dstar.t, p.arg))
                st.env[(fr.fid, p.arg)] = kv if dv is None else V(mk('kwvald', dstar.t, p.arg, dv.t), kv.o | dv.o, None)
            else:
                st.env[(fr.fid, p.arg)] = dv if dv is not None else V(mk('missing', p.arg))
        if a.vararg:
            t = mk('tuple', tuple(v.t for v in rest))
            if star is not None:
                v = V(mk('star', star.t), star.o, 'tuple')
            else:
                v = V(t, EMPTY, 'tuple', ('seq', tuple(rest)))
            st.env[(fr.fid, a.vararg.arg)] = v
        if a.kwarg:
            loc = ('N', ('kw', f.qual, getattr(n, 'lineno', 0), len(self.ctx)))
            for key in [k for k in st.heap if k[0] == loc]:
                del st.heap[key]
            st.ver.pop(loc, None)
            v = V(mk('dict', tuple((const(k), q.t) for k, q in kwrest.items())), frozenset([loc]), 'dict',
                  ('dictlit', dict(kwrest)) if dstar is None else None)
            for k, q in kwrest.items():
                self.store_elem(st, v, f'[{k!r}]', q, n)
            if dstar is not None:
                self.store_elem(st, v, '[*]', self.elem_of(st, dstar, mk('star', dstar.t)), n)
                v = V(mk('kwdict', dstar.t, v.t), v.o, 'dict')
            st.env[(fr.fid, a.kwarg.arg)] = v
        return True


# ----------------------------------------------------------------- utilities
_dbg = {}


def is_debug_flag(t):
    """the term is an entry of the table of enabled diagnostics"""
    r = _dbg.get(t)
    if r is None:
        x = t
        while x.op in ('truthy', 'phi', 'lv') and x.a and isinstance(x.a[0], T):
            x = x.a[0]
        r = x.op == 'sub' and x.a[0].op == 'global' and x.a[0].a[1] == 'logit'
        if not r and x.op == 'call' and x.a[0].op in ('getattr', 'attr') and x.a[0].a[1] == 'get':
            b = x.a[0].a[0]
            r = b.op == 'global' and b.a[1] == 'logit'
        _dbg[t] = r
    return r


def weak(loc):
    if loc[0] == 'F':
        return loc[2].startswith('[*') or weak(loc[1])
    return False


def idx_field(i):
    if is_const(i.t) and not isinstance(i.t.a[0], float):
        return f'[{i.t.a[0]!r}]'
    return '[*]'


def is_fancy(i):
    def one(p):
        return p.k in ('list', 'ndarray') or p.t.op in ('list', 'comp')
    if isinstance(i.x, tuple) and i.x and i.x[0] == 'seq' and i.k == 'tuple':
        return any(one(p) for p in i.x[1])
    return one(i)


def fold(op, a, b):
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        if isinstance(a, str) or isinstance(b, str):
            raise ValueError
        return a * b
    if op == '/' and b:
        r = a / b
        if isinstance(a, int) and isinstance(b, int) and r == int(r):
            return r
        raise ValueError
    raise ValueError


def tyset(t):
    if t.op == 'ext':
        return {t.a[0].replace('builtins.', '')}
    if t.op in ('tuple',) and isinstance(t.a[0], tuple):
        s = set()
        for x in t.a[0]:
            s |= tyset(x)
        return s
    if t.op == 'class':
        return {t.a[0]}
    return set()


def kind_isinstance(k, tys):
    if not tys or k is None:
        return None
    m = {'dict': {'dict'}, 'list': {'list'}, 'tuple': {'tuple'}, 'str': {'str'}, 'ndarray': {'numpy.ndarray'},
         'bool': {'bool', 'int'}, 'num': None, 'none': set(), 'set': {'set'}}
    if k in m and m[k] is not None:
        return bool(m[k] & tys)
    return None


def handler_names(h):
    if h.type is None:
        return None
    if isinstance(h.type, ast.Tuple):
        if not h.type.elts:
            return []
        return [dotted(e) or '?' for e in h.type.elts]
    return [dotted(h.type) or '?']


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b + '.' + n.attr if b else None
    return None


def default_of(a, p):
    pos = a.posonlyargs + a.args
    if p in pos:
        i = pos.index(p) - (len(pos) - len(a.defaults))
        return a.defaults[i] if i >= 0 else None
    if p in a.kwonlyargs:
        return a.kw_defaults[a.kwonlyargs.index(p)]
    return None


def is_mutable_expr(d):
    return isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or (
        isinstance(d, ast.Call) and dotted(d.func) in ('list', 'dict', 'set'))


def containers_in(func):
    """parameters the function itself treats as containers"""
    out = set()
    a = func.node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        d = default_of(a, p)
        if d is not None and is_mutable_expr(d):
            out.add(p.arg)

    def nm(x):
        if isinstance(x, ast.Name):
            out.add(x.id)
    for n in ast.walk(func.node):
        if isinstance(n, ast.Call):
            d = dotted(n.func) or ''
            if d in ('len', 'enumerate', 'list', 'sorted', 'np.array', 'np.asarray', 'numpy.array',
                     '_check_3D_shape_', 'np.shape') and n.args:
                nm(n.args[0])
            if d in ('hasattr', 'getattr') and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and \
                    n.args[1].value in ('__iter__', '__len__', 'shape'):
                nm(n.args[0])
            if d == 'isinstance' and len(n.args) > 1 and any(w in ast.dump(n.args[1]) for w in (
                    "'list'", "'dict'", "'ndarray'", "'tuple'")):
                nm(n.args[0])
            if d in ('zip',):
                for x in n.args:
                    nm(x)
        elif isinstance(n, (ast.For, ast.comprehension)):
            nm(n.iter)
        elif isinstance(n, ast.Subscript):
            nm(n.value)
        elif isinstance(n, ast.Attribute) and n.attr in ('shape', 'tolist', 'items', 'keys'):
            nm(n.value)
    return out


def guess_kind(v, f):
    if v is None:
        return None
    if isinstance(v, ast.Constant):
        x = v.value
        return ('none' if x is None else 'bool' if isinstance(x, bool) else 'str' if isinstance(x, str)
                else 'num')
    if isinstance(v, (ast.List, ast.ListComp)):
        return 'list'
    if isinstance(v, (ast.Dict, ast.DictComp)):
        return 'dict'
    if isinstance(v, ast.Tuple):
        return 'tuple'
    if isinstance(v, ast.JoinedStr):
        return 'str'
    if isinstance(v, ast.Lambda):
        return 'func'
    if isinstance(v, ast.UnaryOp):
        return guess_kind(v.operand, f)
    if isinstance(v, ast.Call):
        d = dotted(v.func) or ''
        base = v.func.value if isinstance(v.func, ast.Attribute) else None
        if d.startswith(('np.', 'numpy.')):
            return 'ndarray'
        if isinstance(v.func, ast.Attribute) and v.func.attr in ('reshape', 'astype'):
            return 'ndarray'
        if d in ('dict', 'list', 'str', 'set'):
            return d
        if d == 'kwargs.copy':
            return 'dict'
        if isinstance(v.func, ast.Attribute) and v.func.attr in ('pop', 'get') and dotted(base) == 'kwargs' \
                and len(v.args) == 2:
            k = guess_kind(v.args[1], f)
            return k if k in ('list', 'dict', 'num', 'str', 'bool') else None
    if isinstance(v, ast.BinOp):
        l, r = guess_kind(v.left, f), guess_kind(v.right, f)
        if 'ndarray' in (l, r):
            return 'ndarray'
        if isinstance(v.op, ast.MatMult):
            return 'ndarray'
        if 'list' in (l, r):
            return 'list'
        if l == r:
            return l
    if isinstance(v, ast.Subscript) and isinstance(v.value, ast.Attribute):
        pass
    return None


def to_load(n):
    import copy
    m = copy.copy(n)
    m.ctx = ast.Load()
    return m


def has_call(n):
    return any(isinstance(x, (ast.Call, ast.NamedExpr)) for x in ast.walk(n))


def has_closure(n):
    return any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not n for x in ast.walk(n))


def walk_own(fn):
    """nodes of a function without those of nested functions / classes"""
    st = list(fn.body) if not isinstance(fn, ast.Lambda) else [fn.body]
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))


def assigned_names_stmt(s):
    r = set()
    st = [s]
    while st:
        x = st.pop()
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            r.add(x.name)
            continue
        if isinstance(x, ast.Lambda):
            continue
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # own scope, except walrus
            for y in ast.walk(x):
                if isinstance(y, ast.NamedExpr):
                    r.add(y.target.id)
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            r.add(x.id)
        if isinstance(x, ast.ExceptHandler) and x.name:
            r.add(x.name)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                r.add(a.asname or a.name.split('.')[0])
        if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
            r.add(x.name)
        st.extend(ast.iter_child_nodes(x))
    return r


def assigned_names(fn):
    r = set()
    for s in fn.body:
        r |= assigned_names_stmt(s)
    return r


SAFE_STMT_CALLS = {'append', 'extend', 'pop', 'insert', 'logident', 'ident', 'debug', 'len', 'list', 'copy', 'dict',
                   'isinstance', 'hasattr', 'tuple', 'keys', 'items', 'values', 'print', 'str', 'enumerate', 'zip',
                   'range', 'whoami', 'get'}


def stmt_raises(s):
    """exceptions a statement can plausibly raise because of its arguments:
    set of class names, '?' for any"""
    if isinstance(s, (ast.If, ast.While)):
        return expr_raises(s.test)
    if isinstance(s, ast.For):
        return expr_raises(s.iter)
    if isinstance(s, (ast.With,)):
        return {'?'}
    if isinstance(s, (ast.Try, ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Break, ast.Continue, ast.Raise)):
        return set()
    out = set()
    for c in ast.iter_child_nodes(s):
        if isinstance(c, ast.expr):
            out |= expr_raises(c)
    return out


METHOD_RAISES = {'pop': {'IndexError', 'KeyError', 'TypeError'}, 'index': {'ValueError'},
                 'remove': {'ValueError', 'KeyError'}, 'append': {'AttributeError'}, 'insert': {'AttributeError'}}


def expr_raises(e):
    out = set()
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            nm = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, 'id', '?')
            if isinstance(x.func, ast.Attribute) and nm in METHOD_RAISES:
                out |= METHOD_RAISES[nm]
            elif nm not in SAFE_STMT_CALLS:
                out.add('?')
        elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load):
            out |= {'KeyError', 'IndexError', 'TypeError'}
        elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
            out.add('AttributeError')
        elif isinstance(x, ast.BinOp):
            out |= {'TypeError', 'ZeroDivisionError', 'ValueError', 'IndexError'}
        elif isinstance(x, ast.Compare):
            out |= {'TypeError', 'ValueError'}
    return out
