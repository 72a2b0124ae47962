C='rfCircuit.py'; B='rfBase.py'; O='rfObject.py'; T='rfTRL.py'; R='rfRLC.py'; W='WriteTSF.py'; RT='ReadTSF.py'
CASES=[
('C18','np-complex',[(R,"[[1, 0j],[0j, rcp ]],\n                            dtype=complex)","[[1, 0j],[0j, rcp ]],\n                            dtype=np.complex)")],'bad'),
('C18','import-gone',[(C,"import warnings\n","")],'bad'),
('C18','local-one-branch',[(C,"        else:\n            rho = kwargs.pop('RC', 0.)\n","        elif 'RC' in kwargs:\n            rho = kwargs.pop('RC', 0.)\n")],'bad'),
('C18','selfattr-typo',[(C,"self.xpos.pop(_kp)\n            self.invM = None","self.xposs.pop(_kp)\n            self.invM = None")],'bad'),
('C18','init-cond',[(C,"        self.idxEs = []\n        self.invM = None","        self.invM = None"),(C,"        self.T = {}\n","        if sNp:\n            self.T = {}\n")],'bad'),
('C18','init-order',[(B,"        self.Id = kwargs.pop('Id', f'{type(self).__name__}_{_newID()}')\n        self.Zbase = kwargs.pop('Zbase', 50.)","        self.Zbase = kwargs.pop('Zbase', 50.)"),(B,"        self.attrs = []\n","        self.Id = kwargs.pop('Id', f'{type(self).__name__}_{_newID()}')\n        self.attrs = []\n"),(B,"_debug_ and logident(f'self.fs={self.fs}')","print(self.Id)")],'bad'),
('C18','kw-unknown',[(C,"t1, n1, VSW = obj.maxV(f, Ek, self.Zbase, blkID,","t1, n1, VSW = obj.maxV(f, Ek, self.Zbase, blkID, self.f, 3, 4,")],'bad'),
('C18','kw-solution',[(C,"obj.Solution(f, Ek, Zbase, snodesleft, flags=flags)","obj.Solution(f, Ek, Zbase, snodesleft, flag=flags)")],'bad'),
('C18','trl-kw',[(O,"TRL = rfTRL(L=-L, Z0TL=Z, Zbase=self.Zbase)\n                elif isinstance(v, (int","TRL = rfTRL(L=-L, Zbl=Z, Zbase=self.Zbase)\n                elif isinstance(v, (int")],'bad'),
('C18','blk-key',[(C,"xpos = relpos + blk['xpos'])","xpos = relpos + blk['relpos_'])")],'bad'),
('C18','method-typo',[(C,"idxA = self.waves.index('->'+port)","idxA = self.waves.indexof('->'+port)")],'bad'),
('C18','missing-arg',[(B,"R = ConvertGeneral(Zbase, Ss, self.Zbase) if","R = ConvertGeneral(Zbase, Ss) if")],'bad'),
('C18','closure-name',[(C,"msg = e.message if hasattr(e,'message') else e","mesg = e.message if hasattr(e,'message') else e")],'bad'),
('C18','q-flag',[(C,"        else:\n            rho = kwargs.pop('RC', 0.)\n","        else:\n            have = False\n            for k in ('RC',):\n                if k in kwargs:\n                    have = True\n                    rr = kwargs.pop(k)\n            rho = rr if have else 0.\n")],'quiet'),
('C18','q-flag2',[(C,"        else:\n            rho = kwargs.pop('RC', 0.)\n","        else:\n            have = False\n            for k in ('RC',):\n                if k in kwargs:\n                    have = True\n                    rr = kwargs.pop(k)\n            if have:\n                rho = rr\n            else:\n                rho = 0.\n")],'quiet'),
('C18','q-while',[(C,"        else:\n            rho = kwargs.pop('RC', 0.)\n","        else:\n            while True:\n                try:\n                    rho = kwargs.pop('RC', 0.)\n                    break\n                except KeyError:\n                    continue\n")],'quiet'),
('C18','q-helper',[(C,"        else:\n            rho = kwargs.pop('RC', 0.)\n","        else:\n            rho = self._rc(kwargs)\n"),(C,"    def resolve_xpos(self):","    def _rc(self, kw):\n        self._last = kw.pop('RC', 0.)\n        return self._last\n\n    def resolve_xpos(self):")],'quiet'),
('C18','q-initblock',[(C,"        self.eqns = []\n        self.f = np.nan","        self._reset_tables()\n        self.f = np.nan"),(C,"    def resolve_xpos(self):","    def _reset_tables(self):\n        self.eqns = []\n\n    def resolve_xpos(self):")],'quiet'),
('C18','q-dictkey',[(C,"relpos += block['xpos']","pos = dict(block)\n                pos['total'] = block['xpos']\n                relpos += pos['total']")],'quiet'),
]
