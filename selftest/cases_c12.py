T, B, O, C, G, L, A = 'rfTRL.py', 'rfBase.py', 'rfObject.py', 'rfCircuit.py', 'ConvertGeneral.py', 'rfRLC.py', 'rfArcObj.py'
GETS = """        if hasattr(fs,'__iter__'):
            for f in fs:
                Ss.append(get1S(f))
            Ss = np.array(Ss)
        else:
            Ss = get1S(fs)
"""
CASES = [
    # bad
    ('C12', 'convert-scalar', [(G, "    if L == 0:\n        _debug_ and logident('< L==0')\n        return S2[0,0,0]", "    if L == 0:\n        return S2[0,0]")], 'bad'),
    ('C12', 'convert-squeeze', [(G, "    S2 = np.array(S2)\n", "    S2 = np.array(S2)\n    if S2.shape[0] == 1:\n        return S2[0]\n")], 'bad'),
    ('C12', 'sfromz-squeeze', [('S_from_Z.py', "S = S[0,0,0] if L == 0 else S[:,0,0] if L == 1 else S[0,:,:] if L==2 else S ", "S = S[0,0,0] if L == 0 else S[:,0,0] if L == 1 else np.squeeze(S)")], 'bad'),
    ('C12', 'yfroms-first', [('Y_from_S.py', 'Z[:,0,0]', 'Z[0,0]')], 'bad'),
    ('C12', 'trl-list-only', [(T, GETS, GETS.replace("hasattr(fs,'__iter__')", "isinstance(fs, list)"))], 'bad'),
    ('C12', 'rlc-sorted', [(L, GETS, GETS.replace("in fs:", "in sorted(fs):"))], 'bad'),
    ('C12', 'circuit-single-of-one', [(C, GETS, GETS.replace("            Ss = np.array(Ss)\n", "            Ss = np.array(Ss) if len(Ss) != 1 else Ss[0]\n"))], 'bad'),
    ('C12', 'base-sorted', [(B, "Ss = [self.get1S(fk) for fk in fs]", "Ss = [self.get1S(fk) for fk in self.fs]")], 'bad'),
    ('C12', 'base-single', [(B, "R = self.getS([fs], **kwargs)[0]", "R = self.getS([fs], **kwargs)")], 'bad'),
    ('C12', 'object-empty', [(O, "            if Ss:\n                self.f, self.S = f, Ss[-1]\n", "            self.f, self.S = f, Ss[-1]\n")], 'bad'),
    ('C12', 'object-last', [(O, "return np.array(Ss)\n", "return np.array(self.S)\n")], 'bad'),
    ('C12', 'arc-scalar', [(A, "self.f, self.S = f, np.array([[Ss]])", "self.f, self.S = f, np.array([Ss])")], 'bad'),
    ('C12', 'check3d', [('_check_3D_shape_.py', "return", "return")], 'quiet'),
    # quiet
    ('C12', 'trl-comp', [(T, GETS, """        if hasattr(fs, '__iter__'):
            return np.array([get1S(f) for f in fs])
        Ss = get1S(fs)
""")], 'quiet'),
    ('C12', 'rlc-ndim', [(L, GETS, """        if np.ndim(fs) > 0:
            Ss = np.array([get1S(f) for f in fs])
        else:
            Ss = get1S(fs)
""")], 'quiet'),
    ('C12', 'circuit-map', [(C, GETS, """        scalar = not hasattr(fs, '__iter__')
        Ss = np.array(list(map(get1S, [fs] if scalar else fs)))
        if scalar:
            Ss = Ss[0]
""")], 'quiet'),
    ('C12', 'convert-pre', [(G, "    S2 = []\n", "    S2 = np.zeros_like(S1, dtype=complex)\n    j = 0\n"), (G, "        S2.append(B2 @ np.linalg.inv(A2))", "        S2[j] = B2 @ np.linalg.inv(A2)\n        j += 1"), (G, "    S2 = np.array(S2)\n", "")], 'quiet'),
    ('C12', 'convert-table', [(G, "    if L == 0:\n        _debug_ and logident('< L==0')\n        return S2[0,0,0]", "    if L == 0:\n        return S2.flat[0]"), (G, "return S2[0,:,:]", "return S2[0]")], 'quiet'),
    ('C12', 'base-helper', [(B, "Ss = [self.get1S(fk) for fk in fs]", "Ss = []\n            for fk in fs:\n                Ss += [self.get1S(fk)]")], 'quiet'),
    ('C12', 'object-ndarray', [(O, "                Ss.append(\n                    tS if Zbase == self.Zbase\n                    else ConvertGeneral(Zbase, tS, self.Zbase)\n                )", "                if Zbase != self.Zbase:\n                    tS = ConvertGeneral(Zbase, tS, self.Zbase)\n                Ss.append(tS)")], 'quiet'),
]
