"""Hash-consed value-numbering terms."""


class T:
    __slots__ = ('op', 'a', 'id', 'size')

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


_tab = {}
MAXSIZE = 600


def mk(op, *a):
    key = (op, tuple((type(x).__name__, x) if not isinstance(x, (T, tuple)) else x for x in a))
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, len(_tab)
        s = 1
        for x in a:
            s += x.size if isinstance(x, T) else (
                sum(y.size if isinstance(y, T) else 1 for y in x) if isinstance(x, tuple) else 0)
        t.size = s
        _tab[key] = t
        if s > MAXSIZE and op not in ('big',):
            b = mk('big', len(_tab))
            _tab[key] = b
            return b
    return t


def const(v):
    return mk('const', v)


NONE, TRUE, FALSE = const(None), const(True), const(False)


def is_const(t):
    return t.op == 'const'


def neg(t):
    if t.op == 'not':
        return t.a[0]
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'const':
        return const(not t.a[0])
    return mk('not', t)


def kids(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield z


def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(kids(x))


def contains(t, s):
    return any(x is s for x in walk(t))


def subst(t, m, memo=None):
    """replace sub terms by mapping m (T->T), simplifying boolean structure"""
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    if t.id in memo:
        return memo[t.id]
    if not t.a or not any(True for _ in kids(t)):
        r = t
    else:
        def sx(x):
            if isinstance(x, T):
                return subst(x, m, memo)
            if isinstance(x, tuple):
                return tuple(sx(y) for y in x)
            return x
        r = simp(t.op, *[sx(x) for x in t.a])
    memo[t.id] = r
    return r


def simp(op, *a):
    """mk with boolean simplification"""
    if op == 'not':
        return neg(a[0])
    if op in ('and', 'or'):
        absorbing, neutral = (FALSE, TRUE) if op == 'and' else (TRUE, FALSE)
        args = []
        for x in a:
            if x is absorbing:
                return absorbing
            if x is neutral:
                continue
            if x not in args:
                args.append(x)
        if not args:
            return neutral
        if len(args) == 1:
            return args[0]
        return mk(op, *args)
    if op == 'bin' and a[0] == '|':
        l, r = a[1], a[2]
        if l is FALSE:
            return r
        if r is FALSE:
            return l
        if TRUE in (l, r):
            return TRUE
    if op == 'ite':
        c, x, y = a
        if c.op == 'const':
            return x if c.a[0] else y
        if x is y:
            return x
        if x is TRUE and y is FALSE:
            return c
    if op == 'truthy':
        x = a[0]
        if x.op == 'const':
            return const(bool(x.a[0]))
        if x.op in ('eq', 'is', 'in', 'not', 'and', 'or', 'cmp', 'truthy', 'isinstance', 'hasattr'):
            return x
        if x.op == 'bin' and x.a[0] == '|':
            return simp('or', simp('truthy', x.a[1]), simp('truthy', x.a[2]))
    return mk(op, *a)


def show(t, d=0):
    if d > 8:
        return '…'
    a = t.a
    if t.op == 'const':
        return repr(a[0])
    if t.op == 'sym':
        return str(a[0])
    if t.op == 'attr':
        return f'{show(a[0], d + 1)}.{a[1]}'
    if t.op == 'bin':
        return f'({show(a[1], d + 1)} {a[0]} {show(a[2], d + 1)})'
    if t.op == 'not':
        return f'not {show(a[0], d + 1)}'

    def sx(x):
        if isinstance(x, T):
            return show(x, d + 1)
        if isinstance(x, tuple):
            return '[' + ', '.join(sx(y) for y in x) + ']'
        return str(x)
    return f'{t.op}({", ".join(sx(x) for x in a)})'
