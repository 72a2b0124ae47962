C = 'rfCircuit.py'
CASES = [
    # ---------------------------------------------------------------- junction
    ('C08', 'junction-factor', [(C, "SJ = np.array([[2/N - (1 if", "SJ = np.array([[1/N - (1 if")], 'bad'),
    ('C08', 'junction-two-only', [(C, "SJ = np.array([[2/N - (1 if", "SJ = np.array([[2/max(N,2) - (1 if")], 'bad'),
    ('C08', 'junction-direction', [(C, "A, B = ('<-', '->') if p in newports else", "A, B = ('<-', '->') if p in newports and len(ports) > 2 else")], 'bad'),
    ('C08', 'junction-first-new', [(C, "A, B = ('<-', '->') if p in newports else", "A, B = ('<-', '->') if p in newports and p != ports[0] else")], 'bad'),
    ('C08', 'junction-eye', [(C, """        SJ = np.array([[2/N - (1 if kc == kr else 0)
                        for kc in range(N)] for kr in range(N)],
                      dtype=complex)""", """        SJ = np.full((N, N), 2/N, dtype=complex) - np.eye(N)""")], 'quiet'),
    ('C08', 'junction-sign', [(C, "            self.M[-1,idxA] = -1\n            \n            # update the equation types\n            m1", "            self.M[-1,idxA] = 1\n            \n            # update the equation types\n            m1")], 'bad'),
    ('C08', 'junction-both-negated', [(C, "            self.M[-1,idxA] = -1\n            \n            # update the equation types\n            m1", "            self.M[-1,idxA] = 1\n            \n            # update the equation types\n            m1"),
                                      (C, "self.M[-1, idxB] = SJrc", "self.M[-1, idxB] = -SJrc")], 'quiet'),
    # ------------------------------------------------------------- termination
    ('C08', 'term-Z-sign', [(C, "rho = (Z - self.Zbase) / (Z + self.Zbase)", "rho = (self.Zbase - Z) / (Z + self.Zbase)")], 'bad'),
    ('C08', 'term-Y', [(C, "rho = (1 - Y * self.Zbase) / (1 + Y * self.Zbase)", "rho = (1 - Y / self.Zbase) / (1 + Y / self.Zbase)")], 'bad'),
    ('C08', 'term-Y-form', [(C, "rho = (1 - Y * self.Zbase) / (1 + Y * self.Zbase)", "y = Y * self.Zbase\n            rho = 2 / (1 + y) - 1")], 'quiet'),
    ('C08', 'term-RC-default', [(C, "rho = kwargs.pop('RC', 0.)", "rho = kwargs.pop('RC', 1.)")], 'bad'),
    ('C08', 'term-later-sign', [(C, "            self.M[eqn, idxA] = -1.\n", "            self.M[eqn, idxA] = 1.\n")], 'bad'),
    ('C08', 'term-later-keep-E', [(C, "            self.M[eqn, idxA] = -1.\n", "")], 'bad'),
    ('C08', 'term-again-A', [(C, "            self.M[eqn, idxB] = rho\n            self.invM, self.S = None, None", "            self.M[eqn, idxA] = rho\n            self.invM, self.S = None, None")], 'bad'),
    ('C08', 'term-row-scale', [(C, "            self.M[-1,idxA] = -1\n            self.M[-1,idxB] = rho", "            self.M[-1,idxA] = 2\n            self.M[-1,idxB] = -2*rho")], 'bad'),
    ('C08', 'term-last-eqn', [(C, "self.T[port] = idxA, idxB, self.M.shape[0] - 1", "self.T[port] = idxA, idxB, len(self.eqns) - 1")], 'quiet'),
    # ------------------------------------------------------------------- order
    ('C08', 'order-ignored', [(C, "                self.ports = list(self.Portnames)\n", "                self.ports = list(self.ports)\n")], 'bad'),
    ('C08', 'order-rows', [(C, "self.idxEs = [ self.E[p] for p in ports]", "self.idxEs = sorted(self.E[p] for p in ports)")], 'quiet'),
    ('C08', 'order-wavesB', [(C, "idxBs = [self.waves.index('<-'+p) for p in ports]", "idxBs = sorted(self.waves.index('<-'+p) for p in ports)")], 'bad'),
    ('C08', 'order-sorted', [(C, "                self.ports = list(self.Portnames)\n", "                self.ports = sorted(self.Portnames)\n")], 'bad'),
    # ------------------------------------------------------------------- block
    ('C08', 'block-no-base', [(C, """S = blk['object'].getS(f, Zbase=self.Zbase, 
""", """S = blk['object'].getS(f, 
""")], 'bad'),
    ('C08', 'block-transposed', [(C, "self.M[i1:i1+N,i2:i2+N] = S\n", "self.M[i1:i1+N,i2:i2+N] = S.T\n")], 'bad'),
    ('C08', 'block-once', [(C, "if f != self.f or self.S is None or self.flags != flags or params:", "if f != self.f or self.flags != flags or params:")], 'bad'),
    ('C08', 'block-loop', [(C, "self.M[i1:i1+N,i2:i2+N] = S\n", """for i in range(N):
                            for j in range(N):
                                self.M[i1+i,i2+j] = S[i,j]
""")], 'quiet'),
    # ---------------------------------------------------------------- solution
    ('C08', 'sol-excitation', [(C, """        Ei = ((Ea + Eb) + self.Zbase/Zbase * (Ea - Eb)) / 2  
        
        if hasattr""", """        Ei = ((Ea + Eb) + Zbase/self.Zbase * (Ea - Eb)) / 2  
        
        if hasattr""")], 'bad'),
    ('C08', 'sol-current', [(C, "Ik = (self.sol[kf] - self.sol[kr]) / self.Zbase", "Ik = (self.sol[kf] - self.sol[kr]) / Zbase")], 'bad'),
    ('C08', 'sol-waves', [(C, "                    Vf = (Vk + Zbase * Ik) / 2\n                    Vr = (Vk - Zbase * Ik) / 2", "                    Vf = self.sol[kf]\n                    Vr = self.sol[kr]")], 'bad'),
    ('C08', 'sol-waves-form', [(C, "                    Vr = (Vk - Zbase * Ik) / 2", "                    Vr = Vk - Vf")], 'quiet'),
    ('C08', 'sol-nested-base', [(C, "tSolr = obj.Solution(f, Ek, Zbase, snodesleft, flags=flags)", "tSolr = obj.Solution(f, Ek, None, snodesleft, flags=flags)")], 'bad'),
    ('C08', 'sol-nested-ports', [(C, "Ek[pobj] = self.tSol[f'{blkID}.{pblk}'][2]", "Ek[pobj] = self.tSol[f'{blkID}.{pblk}'][3]")], 'bad'),
    ('C08', 'sol-nested-order', [(C, "for pobj, pblk in zip(obj.ports, blk['ports']):", "for pobj, pblk in zip(obj.ports, sorted(blk['ports'])):")], 'bad'),
    ('C08', 'solve-waves', [(C, '''        Ei = ((Ea + Eb) + self.Zbase/Zbase * (Ea - Eb)) / 2  
        
        # build''', '''        Ei = np.array(Ea)
        
        # build''')], 'bad'),
    ('C08', 'sol-ratio', [(C, """        Ei = ((Ea + Eb) + self.Zbase/Zbase * (Ea - Eb)) / 2  
        
        if hasattr""", """        r = self.Zbase/Zbase
        Ei = (1 + r)/2 * np.array(Ea) + (1 - r)/2 * Eb
        
        if hasattr""")], 'quiet'),
    # -------------------------------------------------------------------- maxv
    ('C08', 'maxv-forward', [(C, "Vk = np.abs(self.sol[k]  + self.sol[k1])", "Vk = np.abs(self.sol[k])  + np.abs(self.sol[k1])")], 'bad'),
    ('C08', 'maxv-first', [(C, "                if Vk > tmax:\n", "                if Vk > tmax and nmax == 'N/A':\n")], 'bad'),
    ('C08', 'maxv-min', [(C, "                if Vk > tmax:\n", "                if Vk < tmax or nmax == 'N/A':\n")], 'bad'),
    ('C08', 'maxv-name', [(C, "tmax, nmax = Vk, Id+'.'+w[2:]\n                        \n", "tmax, nmax = Vk, Id+'.'+self.waves[0][2:]\n                        \n")], 'bad'),
    ('C08', 'maxv-index', [(C, "k1 = self.waves.index('<-'+w[2:])\n", "k1 = k + 1\n")], 'bad'),
    ('C08', 'maxv-ge', [(C, "                if Vk > tmax:\n", "                if not Vk <= tmax:\n")], 'quiet'),
    ('C08', 'maxv-sub-base', [(C, "obj.maxV(f, Ek, self.Zbase, blkID,", "obj.maxV(f, Ek, Zbase, blkID,")], 'bad'),
    ('C08', 'maxv-named-node', [(C, "            if node in getattr(obj, 'nodes', {}) and node not in obj.ports:", "            if False:")], 'bad'),
    ('C08', 'maxfun-reset', [('maxfun.py', "            for xm, ym in zip(", "            xymax = 0, 0\n            for xm, ym in zip(")], 'bad'),
    ('C08', 'maxfun-ends', [('maxfun.py', "if ys[-1] > ys[0] else", "if ys[-1] < ys[0] else")], 'bad'),
    ('C08', 'maxfun-window', [('maxfun.py', "            if xy[1] > xymax[1]:\n                xymax = xy", "            xymax = xy")], 'bad'),
    # ---------------------------------------------------------------- internal
    ('C08', 'int-dir', [(C, "iA, iB = 3, 2", "iA, iB = 2, 3")], 'bad'),
    ('C08', 'int-product', [(C, "S = np.array(MB_Es) @ np.linalg.inv(MA_Es)", "S = np.linalg.inv(MA_Es) @ np.array(MB_Es)")], 'bad'),
    ('C08', 'int-solve', [(C, "S = np.array(MB_Es) @ np.linalg.inv(MA_Es)", "S = np.linalg.solve(np.array(MA_Es).T, np.array(MB_Es).T).T")], 'quiet'),
    # ----------------------------------------------------------------- deembed
    ('C08', 'deembed-dir', [(C, """            self.M[-2, idxA] = 1
            self.M[-2, len(self.waves)-1] = -1
            self.M[-1, idxB] = 1
            self.M[-1, len(self.waves)-2] = -1""", """            self.M[-2, idxA] = 1
            self.M[-2, len(self.waves)-2] = -1
            self.M[-1, idxB] = 1
            self.M[-1, len(self.waves)-1] = -1""")], 'bad'),
    ('C08', 'deembed-ext', [(C, "            self.M[-2, idxAe] = -1\n", "            self.M[-2, idxBe] = -1\n")], 'bad'),
    ('C08', 'table-deembed', [('rfObject.py', "__x__", "__x__")], 'bad'),
]
CASES.pop()
