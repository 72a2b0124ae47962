T, B, O, C, G, L, A, K = 'rfTRL.py', 'rfBase.py', 'rfObject.py', 'rfCircuit.py', 'ConvertGeneral.py', 'rfRLC.py', 'rfArcObj.py', 'rfCoupler.py'
GETS = """        if hasattr(fs,'__iter__'):
            for f in fs:
                Ss.append(get1S(f))
            Ss = np.array(Ss)
        else:
            Ss = get1S(fs)
"""
CASES = [
    # bad
    ('C13', 'trl-cache-f', [(T, "            if self.sNp:\n                M = self.sNpinter(f)", "            if self.S is not None and self.f == f:\n                M = self.S\n            elif self.sNp:\n                M = self.sNpinter(f)"),
                            (T, "            self.f, self.S = f, np.array(M)\n            \n            if Zbase and Zbase != self.Zbase:\n                M = ConvertGeneral(Zbase,M,self.Zbase)\n", "            if Zbase and Zbase != self.Zbase:\n                M = ConvertGeneral(Zbase,M,self.Zbase)\n            self.f, self.S = f, np.array(M)\n")], 'bad'),
    ('C13', 'trl-unkeyed', [(T, "if f not in self.solved or", "if not self.solved or")], 'bad'),
    ('C13', 'trl-visws-key', [(T, "(Ahash, Zbase) not in self.solved[f]['VISWs']", "not self.solved[f]['VISWs']"), (T, "self.solved[f]['VISWs'][(Ahash, Zbase)]\n        return", "list(self.solved[f]['VISWs'].values())[-1]\n        return")], 'bad'),
    ('C13', 'coupler-drift', [(K, "self.f0Hz", "self.f0Hz")], 'quiet'),
    ('C13', 'circuit-stale-block', [(C, "                    M = self.S\n", "                    M = self.S\n                    Zbase = self.Zbase\n")], 'bad'),
    ('C13', 'rlc-memo', [(L, GETS, """        if hasattr(fs,'__iter__'):
            S = None
            for f in fs:
                S = get1S(f) if S is None or f not in seen else S
                seen.add(f)
                Ss.append(S)
            Ss = np.array(Ss)
        else:
            Ss = get1S(fs)
"""), (L, "        Ss = []\n        if hasattr(fs,'__iter__'):", "        Ss = []\n        seen = set()\n        if hasattr(fs,'__iter__'):")], 'bad'),
    ('C13', 'rlc-zbase-kept', [(L, "        Ss = []\n        if hasattr(fs,'__iter__'):", "        self.Zbase = Zbase\n        Ss = []\n        if hasattr(fs,'__iter__'):")], 'bad'),
    ('C13', 'object-interp-extends', [(O, "                return self._interp_(fk)[0]\n        \n        if", "                M = self._interp_(fk)[0]\n                self.fs = np.append(self.fs, fk)\n                self.Ss = np.append(self.Ss, [M], axis=0)\n                return M\n        \n        if")], 'quiet'),
    ('C13', 'object-zbase-kept', [(O, "        Zbase = kw.pop('Zbase',self.Zbase)\n        \n        def get1S(fk):", "        Zbase = self.Zbase = kw.pop('Zbase',self.Zbase)\n        \n        def get1S(fk):")], 'bad'),
    ('C13', 'circuit-zbase-cached', [(C, "            if Zbase and Zbase != self.Zbase:\n                M = ConvertGeneral(Zbase,M,self.Zbase)\n                \n            return np.array(M)", "            if Zbase and Zbase != self.Zbase:\n                M = self.S = ConvertGeneral(Zbase,M,self.Zbase)\n                \n            return np.array(M)")], 'bad'),
    # quiet
    ('C13', 'trl-cache-good', [(T, GETS, """        cache = {}
        def one(f):
            if f not in cache:
                cache[f] = get1S(f)
            return np.array(cache[f])
        if hasattr(fs,'__iter__'):
            Ss = np.array([one(f) for f in fs])
        else:
            Ss = one(fs)
""")], 'quiet'),
    ('C13', 'trl-visws-key2', [(T, "(Ahash, Zbase) not in self.solved[f]['VISWs']", "(Zbase, Ahash) not in self.solved[f]['VISWs']"), (T, "self.solved[f]['VISWs'][(Ahash, Zbase)] = ", "self.solved[f]['VISWs'][(Zbase, Ahash)] = "), (T, "self.solved[f]['VISWs'][(Ahash, Zbase)]\n        return", "self.solved[f]['VISWs'][(Zbase, Ahash)]\n        return")], 'quiet'),
    ('C13', 'rlc-order', [(L, GETS, """        if hasattr(fs,'__iter__'):
            fl = list(fs)
            R = {k: get1S(fl[k]) for k in reversed(range(len(fl)))}
            Ss = np.array([R[k] for k in range(len(fl))])
        else:
            Ss = get1S(fs)
""")], 'quiet'),
    ('C13', 'object-no-state', [(O, "            if Ss:\n                self.f, self.S = f, Ss[-1]\n", "")], 'quiet'),
]
