"""Value numbers for complex arithmetic.

A scalar of the analysed program is represented by its value number in the
field GF(p)[i], p a 61 bit prime (p = 3 mod 4, so i is a proper extension and
conjugation, real and imaginary parts are those of the complex numbers).  Two
expressions that are equal as rational expressions of the symbols they are
built from, of square roots, of exponentials and of their conjugates get the
same number; two different ones get different numbers but for a chance below
degree/p (Gulwani and Necula's randomised global value numbering).  Symbols
get numbers at random, positive symbols get squares so that square roots of
positive quantities are real and multiplicative.
"""
import math
import random
from fractions import Fraction

P = (1 << 61) - 139666593      # the primes up to 59 and the speed of light have square roots


QR = {}


class Retry(Exception):
    """an unlucky choice of numbers (a square root that does not exist)"""


class Num:
    """value number re + i im, with what is known about it"""
    __slots__ = ('re', 'im', 'pos', 'c', 'd', 'gen', 'ab')

    def __init__(self, re, im=0, pos=None, c=None, d='', gen=None):
        self.re, self.im = re % P, im % P
        self.pos = pos          # '+' positive real, '-' negative real, '0+' real >= 0, None
        self.c = c              # Fraction when the value is a known rational
        self.d = d              # text for messages
        self.gen = gen          # name when it is a bare symbol
        self.ab = None          # (a, b) when it was formed as a - b

    def __repr__(self):
        return self.d or (str(self.c) if self.c is not None else f'<{self.re % 997}>')

    @property
    def fp(self):
        return (self.re, self.im)

    @property
    def real(self):
        return self.im == 0

    def __hash__(self):
        return hash(self.fp)

    def __eq__(self, o):
        return isinstance(o, Num) and self.fp == o.fp


class Inf:
    """+inf or -inf"""
    def __init__(self, s=1):
        self.s = s

    def __repr__(self):
        return 'inf' if self.s > 0 else '-inf'

    def __eq__(self, o):
        return isinstance(o, Inf) and o.s == self.s

    def __hash__(self):
        return hash(('inf', self.s))


class Nan:
    def __repr__(self):
        return 'nan'

    def __eq__(self, o):
        return False

    def __hash__(self):
        return 7


NAN, PINF, NINF = Nan(), Inf(1), Inf(-1)


def txt(x):
    return x.d or (str(x.c) if x.c is not None else '?') if isinstance(x, Num) else repr(x)


def cut(s):
    return s if len(s) < 60 else '…'


class Field:
    def __init__(self, seed=1):
        self.rng = random.Random(seed)
        self.syms = {}
        self.exps = []        # (arg re, value) for real arguments
        self.units = []       # (arg, value Num) for imaginary arguments
        self.expos = {}       # sign of those arguments
        self.funs = {}
        self.loose_abs = False
        self.odd = self.blurred = False     # a positive constant without square root, and a root of unknown sign with it
        self.log_pos = False
        self.sized = {}       # value -> rank: quotients of a higher and a lower rank are above one
        self.pi = self.sym('pi', pos='+')
        self.units_pi = True

    # ------------------------------------------------------- construction
    def num(self, v):
        """a Python number"""
        if isinstance(v, (Num, Inf, Nan)):
            return v
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            v = Fraction(v)
        if isinstance(v, float):
            if math.isinf(v):
                return PINF if v > 0 else NINF
            if math.isnan(v):
                return NAN
            v = Fraction(repr(v))
        if isinstance(v, complex):
            r, i = self.num(v.real), self.num(v.imag)
            if not isinstance(r, Num) or not isinstance(i, Num):
                return NAN
            if i.c == 0:
                return r
            return Num(r.re, i.re, d=repr(v))
        if isinstance(v, Fraction):
            n = v.numerator * pow(v.denominator, -1, P)
            if v > 0 and not self.odd:
                if v not in QR:
                    QR[v] = self.qr(n)
                self.odd = not QR[v]
            return Num(n, 0, '+' if v > 0 else '-' if v < 0 else None, v)
        raise TypeError(type(v))

    def rand(self):
        return self.rng.randrange(2, P - 1)

    def sym(self, name, kind='real', pos=None):
        """a fresh symbol: kind 'real' or 'complex'; pos '+' for a positive one,
        '-' for a negative one; for complex ones pos '+' means positive real part"""
        if name in self.syms:
            return self.syms[name]
        r = self.rand()
        if pos in ('+', '0+'):
            r = r * r
        elif pos == '-':
            r = -r * r
        im = 0
        if kind == 'complex':
            # a fourth power: its modulus is a square, so that abs() of it exists
            while True:
                r, im = cpow((self.rand(), self.rand()), 4)
                if pos is None or pow(r, (P - 1) // 2, P) == (1 if pos in ('+', '0+') else P - 1):
                    break
        n = Num(r, im, pos if kind == 'real' else None, None, name, name)
        self.syms[name] = n
        return n

    def fun(self, name, *args, real=False):
        """uninterpreted function of value numbers"""
        key = (name,) + tuple(a.fp if isinstance(a, Num) else repr(a) for a in args)
        if key not in self.funs:
            self.funs[key] = Num(self.rand(), 0 if real else self.rand(), None, None,
                                 cut(f'{name}({", ".join(txt(a) for a in args)})'))
        return self.funs[key]

    # --------------------------------------------------------- arithmetic
    def add(self, a, b):
        if isinstance(a, Nan) or isinstance(b, Nan):
            return NAN
        if isinstance(a, Inf) or isinstance(b, Inf):
            if isinstance(a, Inf) and isinstance(b, Inf):
                return a if a.s == b.s else NAN
            return a if isinstance(a, Inf) else b
        c = a.c + b.c if a.c is not None and b.c is not None else None
        pos = None
        if c is not None:
            pos = '+' if c > 0 else '-' if c < 0 else None
        elif a.pos and (a.pos == b.pos or b.c == 0):
            pos = a.pos
        elif b.pos and a.c == 0:
            pos = b.pos
        elif {a.pos, b.pos} == {'+', '0+'}:
            pos = '+'
        d, gen = '', None
        if c is None:
            if b.c == 0:
                d, gen = a.d, a.gen
            elif a.c == 0:
                d, gen = b.d, b.gen
            else:
                d = cut(f'({txt(a)} + {txt(b)})')
        return Num(a.re + b.re, a.im + b.im, pos, c, d, gen)

    def neg(self, a):
        if isinstance(a, Nan):
            return a
        if isinstance(a, Inf):
            return Inf(-a.s)
        return Num(-a.re, -a.im, {'+': '-', '-': '+'}.get(a.pos), -a.c if a.c is not None else None,
                   cut(f'-{txt(a)}') if a.c is None else '')

    def sub(self, a, b):
        r = self.add(a, self.neg(b))
        if isinstance(r, Num) and r.c is None and isinstance(a, Num) and isinstance(b, Num) and b.c != 0:
            if r.fp == (0, 0):
                return self.num(0)
            r.d = cut(f'({txt(a)} - {txt(b)})')
            r.ab = (a, b)
            if r.pos is None and r.im == 0 and r.re in self.expos:
                r.pos = self.expos[r.re]        # a difference of logarithms
        elif isinstance(r, Num) and r.c is None and r.fp == (0, 0):
            return self.num(0)
        return r

    def mul(self, a, b):
        if isinstance(a, Nan) or isinstance(b, Nan):
            return NAN
        if isinstance(a, Inf) or isinstance(b, Inf):
            if isinstance(b, Inf) and not isinstance(a, Inf):
                a, b = b, a
            if isinstance(b, Inf):
                return Inf(a.s * b.s)
            if b.fp == (0, 0):
                return NAN
            if b.pos == '-':
                return Inf(-a.s)
            return Inf(a.s)
        c = a.c * b.c if a.c is not None and b.c is not None else None
        if a.c == 0 or b.c == 0:
            return self.num(0)
        pos = None
        if c is not None:
            pos = '+' if c > 0 else '-'
        elif a.pos and b.pos:
            if '0+' in (a.pos, b.pos):
                pos = '0+' if a.pos != '-' and b.pos != '-' else None
            else:
                pos = '+' if a.pos == b.pos else '-'
        if a.c == 1:
            return b
        if b.c == 1:
            return a
        return Num(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re, pos, c,
                   cut(f'{txt(a)}*{txt(b)}') if c is None else '')

    def inv(self, a):
        if isinstance(a, Nan):
            return a
        if isinstance(a, Inf):
            return self.num(0)
        n = (a.re * a.re + a.im * a.im) % P
        if n == 0:
            raise ZeroDivisionError
        ni = pow(n, -1, P)
        return Num(a.re * ni, -a.im * ni, a.pos if a.pos != '0+' else '+', 1 / a.c if a.c is not None else None,
                   cut(f'1/{txt(a)}') if a.c is None else '')

    def div(self, a, b):
        if isinstance(a, Inf) and isinstance(b, Inf):
            return NAN
        if isinstance(b, Num) and b.fp == (0, 0):
            raise ZeroDivisionError
        r = self.mul(a, self.inv(b))
        if isinstance(r, Num) and r.c is None and isinstance(a, Num) and isinstance(b, Num) and b.c != 1:
            r.d = cut(f'{txt(a)}/{txt(b)}')
        return r

    def conj(self, a):
        if not isinstance(a, Num) or a.im == 0:
            return a
        return Num(a.re, -a.im, None, None, cut(f'conj({txt(a)})'))

    def realpart(self, a):
        if not isinstance(a, Num) or a.im == 0:
            return a
        return Num(a.re, 0, self.sgn(a.re), None, cut(f're({txt(a)})'))

    def sgn(self, r):
        return None

    def imagpart(self, a):
        if isinstance(a, (Inf, Nan)):
            return self.num(0)
        if a.im == 0:
            return self.num(0)
        return Num(a.im, 0, None, None, cut(f'im({txt(a)})'))

    # -------------------------------------------------------------- roots
    def qr(self, a):
        return a % P == 0 or pow(a, (P - 1) // 2, P) == 1

    def root(self, a):
        """the root of a square of GF(p) that is itself a square"""
        return pow(a, (P + 1) // 4, P)      # p = 3 mod 4: this root is a square

    def loose_root(self, n, d, pos='0+'):
        """the root of a positive number, uninterpreted when its number has none"""
        if self.qr(n):
            return Num(self.root(n), 0, pos, None, d)
        r = self.fun('root', Num(n), real=True)
        return Num(r.re, 0, pos, None, d)

    def sqrt(self, a):
        if isinstance(a, (Inf, Nan)):
            return a
        if a.c is not None and a.c >= 0:
            n, d = math.isqrt(a.c.numerator), math.isqrt(a.c.denominator)
            if n * n == a.c.numerator and d * d == a.c.denominator:
                return self.num(Fraction(n, d))
        if a.im == 0 and (a.pos in ('+', '0+')):
            if not self.qr(a.re) and not self.loose_abs:
                raise Retry
            if self.loose_abs and a.c is None:
                return self.loose_root(a.re, cut(f'sqrt({txt(a)})'), a.pos)
            if not self.qr(a.re):
                raise Retry
            return Num(self.root(a.re), 0, a.pos, None, cut(f'sqrt({txt(a)})'))
        d = cut(f'sqrt({txt(a)})')
        self.blurred = self.blurred or self.odd
        if a.im == 0:
            if self.qr(a.re):
                return Num(self.root(a.re), 0, None, None, d)
            return Num(0, self.root(-a.re), None, None, d)
        n = (a.re * a.re + a.im * a.im) % P
        if not self.qr(n):
            raise Retry
        s = self.root(n)
        i2 = pow(2, -1, P)
        t = (a.re + s) * i2 % P
        if not self.qr(t) or t == 0:
            t = (a.re - s) * i2 % P
        if not self.qr(t):
            raise Retry
        x = self.root(t)
        if x == 0:
            raise Retry
        y = a.im * pow(2 * x, -1, P) % P
        return Num(x, y, None, None, d)

    def abs(self, a):
        if isinstance(a, Inf):
            return PINF
        if isinstance(a, Nan):
            return a
        if a.c is not None:
            return self.num(abs(a.c))
        if a.pos in ('+', '0+'):
            return a
        if a.pos == '-':
            return self.neg(a)
        n = (a.re * a.re + a.im * a.im) % P
        if a.im and self.loose_abs:
            return self.loose_root(n, cut(f'abs({txt(a)})'))
        if a.im == 0:
            # |a| = sqrt(a^2): one of a, -a
            return Num(self.root(n), 0, '0+', None, cut(f'abs({txt(a)})'))
        if not self.qr(n):
            raise Retry
        return Num(self.root(n), 0, '0+', None, cut(f'abs({txt(a)})'))

    # -------------------------------------------------------- exponentials
    QS = [Fraction(n, d) for n in (1, -1, 2, -2, 3, -3, 4, -4) for d in (1, 2, 3, 4)]

    def exp_real(self, r):
        if r == 0:
            return 1
        for q, a, v in self._combos(r, self.exps):
            return v
        v = self.rand()
        v = pow(v, 48, P)     # square with roots
        self.exps.append((r, v))
        return v

    def _combos(self, r, table):
        for a, v in table:
            for n in (1, -1, 2, -2, 3, -3, 4, -4):
                if (a * n - r) % P == 0:
                    yield n, a, pow(v, n, P)

    def exp_imag(self, y):
        """exp(i y) as a pair"""
        if y % P == 0:
            return (1, 0)
        pi = self.pi.re
        for k, v in ((1, (-1, 0)), (-1, (-1, 0)), (2, (1, 0)), (-2, (1, 0))):
            if (pi * k - y) % P == 0:
                return v
        h = pi * pow(2, -1, P)
        for k, v in ((1, (0, 1)), (-1, (0, -1))):
            if (h * k - y) % P == 0:
                return v
        for a, v in self.units:
            for n in (1, -1, 2, -2, 3, -3, 4, -4):
                if (a * n - y) % P == 0:
                    return cpow(v, n)
        for i, (a, v) in enumerate(self.units):
            for b, w in self.units[:i + 1]:
                for s, t in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
                    if (s * a + t * b - y) % P == 0:
                        return cmul(cpow(v, s), cpow(w, t))
        w = (self.rand(), self.rand())
        n = pow(w[0] * w[0] + w[1] * w[1], -1, P)
        v = cmul(cmul(w, w), (n, 0))           # w^2/|w|^2 is on the unit circle
        self.units.append((y % P, v))
        return v

    def exp(self, a):
        if isinstance(a, Inf):
            return PINF if a.s > 0 else self.num(0)
        if isinstance(a, Nan):
            return a
        if a.c == 0:
            return self.num(1)
        r = self.exp_real(a.re)
        if a.im == 0:
            self.expos[a.re] = a.pos
        u = self.exp_imag(a.im)
        return Num(u[0] * r, u[1] * r, '+' if a.im == 0 else None, None, cut(f'exp({txt(a)})'))

    def angle(self, a):
        if not isinstance(a, Num):
            return self.fun('angle', a, real=True)
        if a.im == 0:
            if a.pos in ('+', '0+'):
                return self.num(0)
            if a.pos == '-':
                return self.pi
            if a.re == 0:
                return self.num(0)
        r = self.fun('angle', a, real=True)
        m = self.abs(a)
        u = self.div(a, m)
        if all(y != r.re for y, _ in self.units):
            self.units.append((r.re, (u.re, u.im)))
        return r

    def log(self, a):
        if isinstance(a, Inf):
            return PINF
        if a.c == 1:
            return self.num(0)
        if a.c == 0:
            return NINF
        m = self.abs(a)
        l = None
        if self.sized and self.log_pos and a.im == 0:
            if m.re in self.sized:
                # log a = log b + log(a/b)
                for v, k in list(self.sized.items()):
                    if k != self.sized[m.re]:
                        self.log(self.div(m, Num(v, 0, '+')))
                        if k < self.sized[m.re] and not any(w == v for _, w in self.exps):
                            self.log(Num(v, 0, '+'))
                        break
            else:
                for v, k in self.sized.items():
                    o = self.sized.get(m.re * v % P)
                    if o is not None and o < k and not any(w in (m.re, pow(m.re, -1, P)) for _, w in self.exps):
                        return self.neg(self.log(self.inv(m)))
        known = [(y, v, s) for y, v in self.exps for s in (1, -1)]
        for y, v, s in known:
            if (pow(v, s, P) - m.re) % P == 0:
                pos = self.expos.get(y)
                l = Num(s * y, 0, pos if s > 0 else {'+': '-', '-': '+'}.get(pos), None, f'log({txt(a)})')
                break
        if l is None and len(known) < 1000:
            # the logarithm of a product or quotient of arguments with known logarithm
            inv = {}
            for y, v, s in known:
                inv[pow(v, s, P)] = s * y
            for y, v, s in known:
                r = m.re * pow(v, -s, P) % P
                if r in inv:
                    l = Num(s * y + inv[r], 0, None, None, f'log({txt(a)})')
                    if self.sized and all(z != l.re for z, _ in self.exps):
                        self.exps.append((l.re, m.re))
                    break
        if l is None:
            l = self.fun('log', m, real=True)
            if self.log_pos:
                # logarithms of generic ratios are taken to be positive
                l = Num(pow(l.re, 48, P), 0, '+', None, l.d)
                self.expos[l.re] = '+'
            if all(y != l.re for y, _ in self.exps):
                self.exps.append((l.re, m.re))
        if a.im == 0:
            return l
        ang = self.angle(a)
        return Num(l.re, ang.re, None, None, cut(f'log({txt(a)})'))

    def cosh(self, a):
        e = self.exp(a)
        return self.div(self.add(e, self.inv(e)), self.num(2))

    def sinh(self, a):
        e = self.exp(a)
        return self.div(self.sub(e, self.inv(e)), self.num(2))

    def cos(self, a):
        return self.cosh(self.mul(a, self.num(1j)))

    def sin(self, a):
        return self.mul(self.sinh(self.mul(a, self.num(1j))), self.num(-1j))

    def pow(self, a, b):
        a, b = self.num(a), self.num(b)
        if isinstance(b, Num) and b.c is not None:
            c = b.c
            if isinstance(a, (Inf, Nan)):
                return self.num(1) if c == 0 else (self.num(0) if c < 0 else a)
            if c.denominator == 1 and abs(c) < 64:
                n = int(c)
                x = self.num(1)
                for _ in range(abs(n)):
                    x = self.mul(x, a)
                return self.inv(x) if n < 0 else x
            if c.denominator == 2 and abs(c) < 64:
                s = self.sqrt(a)
                return self.pow(s, self.num(c * 2))
            if a.c is not None and a.c > 0:
                try:
                    return self.num(float(a.c) ** float(c))
                except OverflowError:
                    return PINF
        if isinstance(a, Num) and a.c is not None and a.c > 0 and isinstance(b, Num):
            # a**b = exp(b log a)
            return self.exp(self.mul(b, self.log(a)))
        return self.fun('pow', a, b)


def cmul(v, w):
    return ((v[0] * w[0] - v[1] * w[1]) % P, (v[0] * w[1] + v[1] * w[0]) % P)


def cpow(v, n):
    if n < 0:
        d = pow(v[0] * v[0] + v[1] * v[1], -1, P)
        v = (v[0] * d % P, -v[1] * d % P)
        n = -n
    r = (1, 0)
    for _ in range(n):
        r = cmul(r, v)
    return r
