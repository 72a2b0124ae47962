C='rfCircuit.py'
CASES=[
('C01','addblock-noreset',[(C,"        self.S = None\n        self.invM = None\n        \n        if '.' in name:","        if '.' in name:")],'bad'),
('C01','addblock-replace-noreset',[(C,"        self.S = None\n        self.invM = None\n        \n        if '.' in name:","        if '.' in name:"),(C,"        # update the waves\n        self.waves += ","        self.S = None\n        self.invM = None\n        self.waves += ")],'bad'),
('C01','deembed-noreset',[(C,"        self.S = None \n        self.invM = None\n","")],'bad'),
('C01','connect-noreset',[(C,"        self.invM, self.S = None, None\n\n        _debug_ and tLogger.debug(ident(\n            f'< [circuit.connect]'","        self.invM = None\n\n        _debug_ and tLogger.debug(ident(\n            f'< [circuit.connect]'")],'bad'),
('C01','terminate-T',[(C,"            self.M[eqn, idxB] = rho\n            self.invM, self.S = None, None","            self.M[eqn, idxB] = rho\n            self.invM = None")],'bad'),
('C01','terminate-E',[(C,"            self.invM = None\n            self.S = None\n                        \n","            self.invM = None\n")],'bad'),
('C01','terminate-equal-rho',[(C,"            self.M[eqn, idxB] = rho\n            self.invM, self.S = None, None","            old = self.M[eqn, idxB]\n            self.M[eqn, idxB] = rho\n            if abs(old - rho) > 1e-6:\n                self.invM, self.S = None, None")],'bad'),
('C01','getS-noflags',[(C,"self.S is None or self.flags != flags or params:","self.S is None or params:")],'bad'),
('C01','getS-noparams',[(C,"self.S is None or self.flags != flags or params:","self.S is None or self.flags != flags:")],'bad'),
('C01','getS-isclose',[(C,"if f != self.f or self.S is None","if not np.isclose(f, self.f) or self.S is None")],'bad'),
('C01','getS-noS',[(C,"if f != self.f or self.S is None or","if f != self.f or")],'bad'),
('C01','getS-flagsref',[(C,"self.f, self.S, self.flags = f, M, flags.copy()","self.f, self.S, self.flags = f, M, flags")],'bad'),
('C01','getS-nofset',[(C,"self.f, self.S, self.flags = f, M, flags.copy()","self.S, self.flags = M, flags.copy()")],'bad'),
('C01','getS-noreset-before',[(C,"                    self.S, self.invM = None, None\n                    \n                    for blkID","                    for blkID")],'bad'),
('C01','getS-skip-arrays',[(C,"                            S = blk['object']\n","                            S = blk['object']\n                            if not np.isnan(self.M[i1,i2]):\n                                continue\n")],'bad'),
('C01','getS-blockparams',[(C,"params=blk['params'], \n                                                   flags=flags)","params=params.get(blkID,{}), \n                                                   flags=flags)")],'bad'),
('C01','getS-blockflags',[(C,"params=blk['params'], \n                                                   flags=flags)","params=blk['params'])")],'bad'),
('C01','solve-guard',[(C,"        Eb = self.getS(f,Zbase,flags=flags) @ Ea  # (implicitly updates and solves the circuit)\n        \n        # incident voltage waves @ self.Zbase\n        Ei = ((Ea + Eb) + self.Zbase/Zbase * (Ea - Eb)) / 2  \n        \n        # build","        Eb = (self.S if f == self.f else self.getS(f,Zbase,flags=flags)) @ Ea  # (implicitly updates and solves the circuit)\n        \n        # incident voltage waves @ self.Zbase\n        Ei = ((Ea + Eb) + self.Zbase/Zbase * (Ea - Eb)) / 2  \n        \n        # build")],'bad'),
('C01','maxV-noflags',[(C,"Eb = self.getS(f, Zbase, flags=flags) @ Ea   #","Eb = self.getS(f, Zbase) @ Ea   #")],'bad'),
('C01','set-late-reset',[(C,"            self.S, self.invM = None, None\n            try:\n                if rest:","            try:\n                if rest:")],'bad'),
('C01','set-only-if',[(C,"            self.S, self.invM = None, None\n            try:\n                if rest:","            try:\n                if rest:"),(C,"        if modified:\n            self.invM","        if modified is not None:\n            self.invM")],'bad'),
# refactorings
('C01','q-helper',[(C,"        self.invM, self.S = None, None\n\n        _debug_ and tLogger.debug(ident(\n            f'< [circuit.connect]'","        self._unsolve()\n\n        _debug_ and tLogger.debug(ident(\n            f'< [circuit.connect]'"),(C,"    def __len__(self):","    def _unsolve(self):\n        self.invM = None\n        self.S = None\n\n    def __len__(self):")],'quiet'),
('C01','q-reuse-helper',[(C,"                if f != self.f or self.S is None or self.flags != flags or params:","                valid = self._same(f, flags)\n                if params or not valid:"),(C,"    def __len__(self):","    def _same(self, f, flags):\n        if self.S is None:\n            return False\n        return f == self.f and flags == self.flags\n\n    def __len__(self):")],'quiet'),
('C01','q-reuse-invert',[(C,"if f != self.f or self.S is None or self.flags != flags or params:","if not (f == self.f and self.S is not None and self.flags == flags and not params):")],'quiet'),
('C01','q-loop',[(C,"        for SJr, idxA, port in zip(SJ,idxAs, ports):\n","        for k in range(N):\n            SJr, idxA, port = SJ[k], idxAs[k], ports[k]\n")],'quiet'),
('C01','q-rename',[(C,"                    M = self.extS()\n                    self.f, self.S, self.flags = f, M, flags.copy()","                    M = self.extS()\n                    self.S = M\n                    self.f = f\n                    self.flags = dict(flags)")],'quiet'),
('C01','q-split-eval',[(C,"                    for blkID, blk in self.blocks.items():\n                        _debug_ and tLogger.debug(ident(\n                            f'getting S for {blkID}'\n                        ))\n                                        \n                        i1, i2 = blk['loc']","                    for blkID in self.blocks:\n                        blk = self.blocks[blkID]\n                        i1, i2 = blk['loc']")],'quiet'),
]
