CASES = [
    ('C07', 'g-no-conj', [('ConvertGeneral.py', 'QVa, QVb = np.conj(Zd) * iRd, Zd * iRd', 'QVa, QVb = Zd * iRd, Zd * iRd')], 'bad'),
    ('C07', 'p-bI', [('ConvertGeneral.py', "            QbV, QbI = iRd/2, -Zd * iRd / 2                  # (nF,N) \n", "            QbV, QbI = iRd/2, -np.conj(Zd) * iRd / 2\n")], 'quiet'),
    ('C07', 'one-d-order', [('ConvertGeneral.py', 'Zd = np.array(Zd.tolist() * nF).reshape(nF,N)', 'Zd = np.repeat(Zd, nF).reshape(nF,N)')], 'bad'),
    ('C07', 'one-d-tile', [('ConvertGeneral.py', 'Zd = np.array(Zd.tolist() * nF).reshape(nF,N)', 'Zd = np.tile(Zd, (nF, 1))')], 'quiet'),
    ('C07', 'rank1', [('ConvertGeneral.py', "        return S2[:,0,0]", "        return S2[0,:,0]")], 'bad'),
    ('C07', 'solve', [('ConvertGeneral.py', "S2.append(B2 @ np.linalg.inv(A2))", "S2.append(np.linalg.solve(A2.T, B2.T).T)")], 'quiet'),
    ('C07', 'solve-wrong', [('ConvertGeneral.py', "S2.append(B2 @ np.linalg.inv(A2))", "S2.append(np.linalg.solve(A2, B2))")], 'bad'),
    ('C07', 'types-swapped', [('ConvertGeneral.py', "*_, SVa, SVb, SIa, SIb = coeffs(Z1, type1)", "*_, SVa, SVb, SIa, SIb = coeffs(Z1, type2)")], 'bad'),
    ('C07', 'y-default', [('S_from_Y.py', 'def S_from_Y(Y, Zbase=50.)', 'def S_from_Y(Y, Zbase=30.)')], 'bad'),
    ('C07', 'z-order', [('Z_from_S.py', 'Zbase * np.linalg.inv(I - Sk)  @ (I + Sk)', '(I + Sk) @ np.linalg.inv(I - Sk) * Zbase')], 'quiet'),
    ('C07', 'z-elementwise', [('Z_from_S.py', 'Zbase * np.linalg.inv(I - Sk)  @ (I + Sk)', 'Zbase * np.linalg.inv(I - Sk) * (I + Sk)')], 'bad'),
    ('C07', 'y-scale', [('Y_from_S.py', '(I - Sk) / Zbase', '(I - Sk) * Zbase')], 'bad'),
    ('C07', 'vi-sign', [('S_from_VI.py', '[      1            ,     + Z0         ]', '[      1            ,     - Z0         ]')], 'bad'),
    ('C07', 'rlc-zbase-kept', [('rfRLC.py', '            Zbase = self.Zbase\n        \n        for p in', '            Zbase = self.Zbase\n        self.Zbase = Zbase\n        for p in')], 'bad'),
    ('C07', 'rlc-yp', [('rfRLC.py', 'yp = (1/self.Rp + 1/jw/self.Lp + jw * self.Cp)*Zbase', 'yp = (1/self.Rp + 1/jw/self.Lp + jw * self.Cp)*self.Zbase')], 'bad'),
    ('C07', 'trl-swap', [('rfTRL.py', 'M = ConvertGeneral(Zbase,M,self.Zbase)', 'M = ConvertGeneral(self.Zbase,M,Zbase)')], 'bad'),
    ('C07', 'trl-no-if', [('rfTRL.py', """            if Zbase and Zbase != self.Zbase:
                M = ConvertGeneral(Zbase,M,self.Zbase)""", "            M = ConvertGeneral(Zbase or self.Zbase,M,self.Zbase)")], 'quiet'),
    ('C07', 'obj-single-only', [('rfObject.py', """                Ss.append(
                    tS if Zbase == self.Zbase
                    else ConvertGeneral(Zbase, tS, self.Zbase)
                )""", "                Ss.append(tS)")], 'bad'),
    ('C07', 'obj-interp-noconv', [('rfObject.py', """            Ss = (tS if Zbase == self.Zbase 
                  else ConvertGeneral(Zbase, tS, self.Zbase))""", """            Ss = (tS if Zbase == self.Zbase or not np.any(self.fs == fs)
                  else ConvertGeneral(Zbase, tS, self.Zbase))""")], 'bad'),
    ('C07', 'renorm-zbase', [('rfObject.py', '        self.Zbase = newZbase\n', '')], 'bad'),
    ('C07', 'renorm-order', [('rfObject.py', """        self.Ss = ConvertGeneral(newZbase, self.Ss, self.Zbase, 'V', 'V')
        self.Zbase = newZbase""", """        oldZbase, self.Zbase = self.Zbase, newZbase
        self.Ss = ConvertGeneral(newZbase, self.Ss, oldZbase)""")], 'quiet'),
    ('C07', 'renorm-late', [('rfObject.py', """        self.Ss = ConvertGeneral(newZbase, self.Ss, self.Zbase, 'V', 'V')
        self.Zbase = newZbase""", """        self.Zbase = newZbase
        self.Ss = ConvertGeneral(newZbase, self.Ss, self.Zbase, 'V', 'V')""")], 'bad'),
    ('C07', 'base-if', [('rfBase.py', "R = ConvertGeneral(Zbase, Ss, self.Zbase) if Zbase != self.Zbase else np.array(Ss)", "R = ConvertGeneral(Zbase, np.array(Ss), self.Zbase)")], 'quiet'),
    ('C07', 'base-50', [('rfBase.py', "Zbase = kwargs.pop('Zbase', self.Zbase)\n            R =", "Zbase = kwargs.pop('Zbase', 50.)\n            R =")], 'bad'),
]
