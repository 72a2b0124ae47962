T, B, O, C, L, A = 'rfTRL.py', 'rfBase.py', 'rfObject.py', 'rfCircuit.py', 'rfRLC.py', 'rfArcObj.py'
CASES = [
    # bad
    ('C02', 'setS-interp', [(O, "        whoami = 'pyRFtk2.rfObject.setS'\n        \n        self.interpOK = False\n", "        whoami = 'pyRFtk2.rfObject.setS'\n        \n")], 'bad'),
    ('C02', 'setitem-interp', [(O, "is rejected\n        self.interpOK = False\n", "is rejected\n")], 'bad'),
    ('C02', 'sortports-interp', [(O, "        self.interpOK = False\n        self.ports = [self.ports[k]", "        self.ports = [self.ports[k]")], 'bad'),
    ('C02', 'convert-interp', [(O, "        self.interpOK = False\n        self.Ss = ConvertGeneral(newZbase", "        self.Ss = ConvertGeneral(newZbase")], 'bad'),
    ('C02', 'setitem-sorted', [(O, "        self.interpOK = False\n        self.sorted = bool(np.all(np.diff(self.fs) > 0))\n    \n", "        self.interpOK = False\n    \n")], 'bad'),
    ('C02', 'trl-set-solved', [(T, "            if kw == 'L':\n                self.xpos = [self.xpos[0], self.L + self.xpos[0]]\n        \n        self.solved = {}\n", "            if kw == 'L':\n                self.xpos = [self.xpos[0], self.L + self.xpos[0]]\n        \n")], 'bad'),
    ('C02', 'trl-set-modified', [(T, "                self.xpos = [self.xpos[0], self.L + self.xpos[0]]\n        \n        self.solved = {}\n", "                self.xpos = [self.xpos[0], self.L + self.xpos[0]]\n                self.solved = {}\n        \n")], 'bad'),
    ('C02', 'trl-memo-E', [(T, "Ahash = tuple(As.tolist())", "Ahash = tuple(np.abs(As).tolist())")], 'bad'),
    ('C02', 'trl-memo-first', [(T, "Ahash = tuple(As.tolist())", "Ahash = As.tolist()[0]")], 'bad'),
    ('C02', 'trl-memo-Z', [(T, "(Ahash, Zbase) not in", "(Ahash, self.Zbase) not in"), (T, "['VISWs'][(Ahash, Zbase)] = (", "['VISWs'][(Ahash, self.Zbase)] = ("), (T, "self.solved[f]['VISWs'][(Ahash, Zbase)]\n", "self.solved[f]['VISWs'][(Ahash, self.Zbase)]\n")], 'bad'),
    ('C02', 'trl-memo-shared', [(T, "        return (np.array(self.solved[f]['xs']),\n                (np.array(Vsw), np.array(Isw), dict(E)))", "        return self.solved[f]['xs'], (Vsw, Isw, E)")], 'bad'),
    ('C02', 'trl-set-kept', [(T, "            setattr(self, kw, val)\n            self.kwargs[kw] = val\n            if kw == 'L'", "            if kw != 'Zbase' or not self.solved:\n                setattr(self, kw, val)\n            self.kwargs[kw] = val\n            if kw == 'L'")], 'bad'),
    ('C02', 'trl-S-kept', [(T, "            if self.sNp:\n                M = self.sNpinter(f)\n", "            if self.f is not None and f == self.f:\n                M = np.array(self.S)\n            elif self.sNp:\n                M = self.sNpinter(f)\n")], 'bad'),
    ('C02', 'rlc-S-kept', [(L, "        def get1S(f):\n            self.f = f\n", "        def get1S(f):\n            if self.f is not None and f == self.f and Zbase == self.Zbase:\n                return np.array(self.S)\n            self.f = f\n")], 'bad'),
    ('C02', 'rlc-params-late', [(L, "setattr(self, p, params.get(p, getattr(self, p)))", "setattr(self, p, getattr(self, p) if self.f is not None else params.get(p, getattr(self, p)))")], 'bad'),
    ('C02', 'arc-kept', [(A, "    def get1S(self, f):\n        \n", "    def get1S(self, f):\n        \n        if self.f is not None and self.f == f:\n            return np.array(self.S)\n")], 'quiet'),   # rfBase.set resets f
    ('C02', 'arc-kept2', [(A, "    def get1S(self, f):\n        \n", "    def get1S(self, f):\n        \n        self.seen = getattr(self, 'seen', {})\n        if f in self.seen:\n            return np.array(self.seen[f])\n"), (A, "self.f, self.S = f, np.array([[Ss]])", "self.f, self.S = f, np.array([[Ss]])\n        self.seen[f] = self.S")], 'bad'),
    ('C02', 'object-last', [(O, "            k = np.where(self.fs == fk)[0]\n            if k.size:\n", "            k = np.where(self.fs == fk)[0]\n            if self.f is not None and fk == self.f:\n                return self.S\n            if k.size:\n")], 'bad'),
    ('C02', 'object-insert', [(O, "return self._interp_(fk)[0]", "return self._interp_(fk, True)[0]")], 'bad'),
    ('C02', 'object-set-existing', [(O, "keep = [k for k, fk in enumerate(self.fs) if fk not in f]", "keep = [k for k, fk in enumerate(self.fs)]")], 'bad'),
    ('C02', 'object-set-gms', [(O, "self.Gms = np.append(self.Gms[keep], unknown, axis=0)", "self.Gms = np.append(self.Gms, unknown, axis=0)")], 'bad'),
    # quiet
    ('C02', 'trl-solved-order', [(T, "        modified = False\n        for kw, val in kwargs.items():\n            modified |= getattr(self,kw) != val", "        self.solved = dict()\n        modified = False\n        for kw, val in kwargs.items():\n            modified |= getattr(self,kw) != val"), (T, "                self.xpos = [self.xpos[0], self.L + self.xpos[0]]\n        \n        self.solved = {}\n", "                self.xpos = [self.xpos[0], self.L + self.xpos[0]]\n")], 'quiet'),
    ('C02', 'trl-solved-clear', [(T, "                self.xpos = [self.xpos[0], self.L + self.xpos[0]]\n        \n        self.solved = {}\n", "                self.xpos = [self.xpos[0], self.L + self.xpos[0]]\n        if modified:\n            self.solved.clear()\n")], 'quiet'),
    ('C02', 'trl-memo-key', [(T, "        Ahash = tuple(As.tolist())", "        Ahash = tuple((a.real, a.imag) for a in As.tolist())")], 'quiet'),
    ('C02', 'trl-memo-none', [(T, "if f not in self.solved or (Ahash, Zbase) not in self.solved[f]['VISWs']:", "if True:")], 'quiet'),
    ('C02', 'trl-memo-get', [(T, "        Vsw, Isw, E = self.solved[f]['VISWs'][(Ahash, Zbase)]\n", "        known = self.solved[f]['VISWs']\n        Vsw, Isw, E = known[(Ahash, Zbase)]\n")], 'quiet'),
    ('C02', 'setS-helper', [(O, "        whoami = 'pyRFtk2.rfObject.setS'\n        \n        self.interpOK = False\n        self.interpA = None\n        self.interpM = None\n", "        whoami = 'pyRFtk2.rfObject.setS'\n        \n        self._forget_()\n"), (O, "is rejected\n        self.interpOK = False\n", "is rejected\n        self._forget_()\n"), (O, "    def __setitem__(self, k, value):\n", "    def _forget_(self):\n        self.interpOK = False\n        self.interpA = self.interpM = None\n        \n    def __setitem__(self, k, value):\n")], 'quiet'),
    ('C02', 'setS-late', [(O, "        whoami = 'pyRFtk2.rfObject.setS'\n        \n        self.interpOK = False\n        self.interpA = None\n        self.interpM = None\n", "        whoami = 'pyRFtk2.rfObject.setS'\n        \n"), (O, "        self.sorted = isorted\n", "        self.interpOK = False\n        self.sorted = isorted\n")], 'quiet'),
    ('C02', 'setS-sorted', [(O, "        self.sorted = isorted\n", "        self.sorted = False\n        self._sort_fs_()\n")], 'quiet'),
    ('C02', 'setS-mask', [(O, "        keep = [k for k, fk in enumerate(self.fs) if fk not in f]\n", "        keep = np.array([fk not in f for fk in self.fs], dtype=bool)\n")], 'quiet'),
    ('C02', 'setS-concat', [(O, "self.fs = fs\n        self.Ss = np.append(self.Ss[keep], S, axis=0)", "self.fs = np.concatenate((self.fs[keep], f))\n        self.Ss = np.concatenate([self.Ss[keep], S])")], 'quiet'),
    ('C02', 'setS-isin', [(O, "        keep = [k for k, fk in enumerate(self.fs) if fk not in f]\n", "        keep = np.where(~np.isin(self.fs, f))[0]\n")], 'quiet'),
    ('C02', 'object-any', [(O, "            k = np.where(self.fs == fk)[0]\n            if k.size:\n                return self.Ss[k[0]]\n", "            for k, f_ in enumerate(self.fs):\n                if f_ == fk:\n                    return self.Ss[k]\n            if 0:\n                pass\n")], 'quiet'),
    ('C02', 'interp-build', [(O, "        if not self.interpOK:\n", "        if not self.interpOK or self.interpM is None:\n")], 'quiet'),
    ('C02', 'rlc-set-always', [(L, "        if modified:\n            self.f, self.S = None, None\n", "        self.f = self.S = None\n")], 'quiet'),
    ('C02', 'rlc-params-loop', [(L, "        for p in ['Rs','Ls','Cs','Rp','Lp','Cp']:\n            setattr(self, p, params.get(p, getattr(self, p)))\n", "        for p in self.attrs:\n            if p in params:\n                setattr(self, p, params[p])\n")], 'quiet'),
]
