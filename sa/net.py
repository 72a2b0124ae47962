"""Reference solution of a network of multiports from Kirchhoff's laws, on value
numbers: the oracle of the circuit rules.  Written from the definitions
V = a + b, Z0 I = a - b (I into the port), equal voltages and vanishing current
sum at a junction; it shares nothing with the package's circuit matrix."""
from .aev import Arr


class Net:
    def __init__(self, ev, z0):
        self.ev, self.F, self.z0 = ev, ev.F, ev.F.num(z0)
        self.blocks = {}        # name -> (ports, S at z0)
        self.joints = []        # (members, new node or None)
        self.terms = {}         # node -> ('Z'|'Y'|'RC', value)
        self.nodes = []
        self.used = set()
        self.extra = []         # (row) linear equations given directly

    # ------------------------------------------------------------ building
    def add(self, name, ports, S):
        self.blocks[name] = (list(ports), S)
        self.nodes += [f'{name}.{p}' for p in ports]

    def replace(self, name, S):
        self.blocks[name] = (self.blocks[name][0], S)

    def connect(self, *ports):
        new = [p for p in ports if p not in self.nodes]
        old = [p for p in ports if p in self.nodes]
        assert len(new) < 2
        self.joints.append((old, new[0] if new else None))
        self.nodes += new
        self.used |= set(old)

    def terminate(self, node, kind=None, val=None):
        self.terms[node] = (kind, val)
        self.used.add(node)

    def ext(self):
        return [n for n in self.nodes if n not in self.used]

    # ------------------------------------------------------------- solving
    def rows(self):
        """equations without excitations as dicts {(node, 'a'|'b'): coefficient}"""
        F = self.F
        one, mone = F.num(1), F.num(-1)
        out = []
        for name, (ports, S) in self.blocks.items():
            n = len(ports)
            for i, p in enumerate(ports):
                row = {(f'{name}.{p}', 'b'): one}
                for j, q in enumerate(ports):
                    self.acc(row, (f'{name}.{q}', 'a'), F.neg(F.num(S.flat[i * n + j])))
                out.append(row)
        for old, new in self.joints:
            first = old[0]
            for q in old[1:] + ([new] if new else []):     # equal voltages
                row = {}
                for k, (node, s) in enumerate(((first, one), (q, mone))):
                    self.acc(row, (node, 'a'), s)
                    self.acc(row, (node, 'b'), s)
                out.append(row)
            row = {}                                       # current sum
            for q in old:
                self.acc(row, (q, 'a'), one)
                self.acc(row, (q, 'b'), mone)
            if new:
                self.acc(row, (new, 'a'), mone)
                self.acc(row, (new, 'b'), one)
            out.append(row)
        z0 = self.z0
        for node, (kind, v) in self.terms.items():
            row = {}
            if kind == 'Z':          # V = -Z I
                q = F.div(F.num(v), z0)
                row = {(node, 'a'): F.add(one, q), (node, 'b'): F.sub(one, q)}
            elif kind == 'Y':        # I = -Y V
                q = F.mul(F.num(v), z0)
                row = {(node, 'a'): F.add(one, q), (node, 'b'): F.sub(q, one)}
            else:
                row = {(node, 'a'): one, (node, 'b'): F.neg(F.num(v or 0))}
            out.append(row)
        return out + self.extra

    def acc(self, row, k, v):
        row[k] = self.F.add(row[k], v) if k in row else v

    def system(self, ext):
        F = self.F
        cols = [(n, w) for n in self.nodes for w in 'ab']
        rows = self.rows() + [{(p, 'a'): F.num(1)} for p in ext]
        if len(rows) != len(cols):
            self.ev.unk(f'reference network has {len(rows)} equations for {len(cols)} waves')
        zero = F.num(0)
        M = Arr([r.get(c, zero) for r in rows for c in cols], (len(rows), len(cols)))
        return cols, M

    def waves(self, ext, A):
        """A: incident waves at ext (list of lists, one list per excitation);
        gives [{node: (a, b)}] at z0"""
        cols, M = self.system(ext)
        F = self.F
        m = len(cols) - len(ext)
        k = len(A)
        B = Arr([F.num(0)] * (m * k) + [F.num(A[e][i]) for i in range(len(ext)) for e in range(k)],
                (len(cols), k))
        X = self.ev.matmul(self.ev.inverse(M), B)
        out = []
        for e in range(k):
            d = {}
            for i, (n, w) in enumerate(cols):
                d.setdefault(n, [None, None])['ab'.index(w)] = X.flat[i * k + e]
            out.append({n: tuple(v) for n, v in d.items()})
        return out

    def S(self, ext):
        n = len(ext)
        sols = self.waves(ext, [[int(i == j) for i in range(n)] for j in range(n)])
        return Arr([sols[j][p][1] for p in ext for j in range(n)], (n, n))

    def solution(self, ext, E, z2):
        """{node: (V, I, Vf, Vr)} for incident waves E (at z2)"""
        F, ev = self.F, self.ev
        from .laws import R
        z2 = F.num(z2)
        S2 = R(ev).convert(z2, self.S(ext), self.z0)
        a2 = Arr([F.num(E[p]) for p in ext], (len(ext), 1))
        b2 = ev.matmul(S2, a2)
        a0 = []
        for a, b in zip(a2.flat, b2.flat):
            V, I = F.add(a, b), F.div(F.sub(a, b), z2)
            a0.append(F.div(F.add(V, F.mul(self.z0, I)), F.num(2)))
        w = self.waves(ext, [a0])[0]
        out = {}
        for n, (a, b) in w.items():
            V, I = F.add(a, b), F.div(F.sub(a, b), self.z0)
            out[n] = (V, I, F.div(F.add(V, F.mul(z2, I)), F.num(2)), F.div(F.sub(V, F.mul(z2, I)), F.num(2)))
        return out
