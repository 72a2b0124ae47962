C='rfCircuit.py'
CASES=[
('C04','subst-portscopy',[(C,"            if isinstance(ports, dict):\n                ports = ports.copy()\n                \n                # remap port names (note: empty dict pulls the object's portnames)\n                oports = [ports.pop(_p, _p) for _p in RFobj.ports]\n                \n                # possibly the user supplied non-existing port names\n                if ports:\n                    raise ValueError(\n                        f'{whoami(__package__)}[\"{name}\"]: ports {ports} not defined')\n        \n        if not oports: #","            if isinstance(ports, dict):\n                # remap port names (note: empty dict pulls the object's portnames)\n                oports = [ports.pop(_p, _p) for _p in RFobj.ports]\n                \n                # possibly the user supplied non-existing port names\n                if ports:\n                    raise ValueError(\n                        f'{whoami(__package__)}[\"{name}\"]: ports {ports} not defined')\n        \n        if not oports: #")],'bad'),
('C04','checkshape-inplace',[('_check_3D_shape_.py',"    M3= np.array(M3)","    M3= np.asarray(M3)"),('ConvertGeneral.py',"    O = np.ones((nF, N))","    S1 += 0.\n    O = np.ones((nF, N))")],'bad'),
('C04','maxV-pop',[('rfObject.py',"        Ea = [E[p] for p in self.ports]\n        Eb = self.getS(f, Zbase=Zbase)","        Ea = [E.pop(p) for p in self.ports]\n        Eb = self.getS(f, Zbase=Zbase)")],'bad'),
('C04','findpath-default',[('findpath.py',"    SEARCH_DIRS += userdirs + appdirs","    SEARCH_DIRS += userdirs + appdirs\n    userdirs.append(fpattern)")],'bad'),
('C04','findpath-alias',[('findpath.py',"    SEARCH_DIRS = []\n","    SEARCH_DIRS = appdirs\n")],'bad'),
('C04','trl-getS-params',[('rfTRL.py',"        self.set(**params)\n","        params.pop('Zbase', None)\n        self.set(**params)\n")],'bad'),
('C04','getS-fs-scale',[('rfObject.py',"        fs = np.array(fs) * FUNITS[kw.pop('funit', self.funit).upper()]/self.fscale","        fs *= FUNITS[kw.pop('funit', self.funit).upper()]/self.fscale")],'bad'),
('C04','solution-E',[(C,"                    tSolr = obj.Solution(f, Ek, Zbase, snodesleft, flags=flags)","                    if nodes: nodes.remove(nodes[0])\n                    tSolr = obj.Solution(f, Ek, Zbase, snodesleft, flags=flags)")],'bad'),
('C04','flags-store-update',[(C,"                    self.f, self.S, self.flags = f, M, flags.copy()","                    flags.setdefault('sNp', True)\n                    self.f, self.S, self.flags = f, M, flags.copy()")],'bad'),
('C04','sfromz-inplace',[('S_from_Z.py',"    L, Z = _check_3D_shape_(Z)","    L = np.ndim(Z)\n    Z = np.asarray(Z).reshape((-1,)+np.shape(Z)[-2:])\n    Z /= 1.")],'bad'),
('C04','write-sort',[('WriteTSF.py',"    nports = len(object)\n","    nports = len(object)\n    fs.sort()\n")],'bad'),
# refactorings
('C04','q-list',[(C,"                ports = ports.copy()\n                \n                # remap","                ports = dict(ports)\n                \n                # remap")],'quiet'),
('C04','q-comprehension',[(C,"                ports = ports.copy()\n                \n                # remap port names (note: empty dict pulls the object's portnames)\n                oports = [ports.pop(_p, _p) for _p in RFobj.ports]\n","                ports = {k: v for k, v in ports.items()}\n                oports = []\n                for _p in RFobj.ports:\n                    oports.append(ports.pop(_p, _p))\n")],'quiet'),
('C04','q-fs',[('rfObject.py',"        fs = np.array(fs) * FUNITS[kw.pop('funit', self.funit).upper()]/self.fscale","        fs = np.array(fs)\n        fs *= FUNITS[kw.pop('funit', self.funit).upper()]/self.fscale")],'quiet'),
('C04','q-deembed-work',[(C,"        free = list(self.ports)\n        for dp, ip in IntPorts:","        free = [p for p in self.ports]\n        for dp, ip in IntPorts:")],'quiet'),
# C05
('C05','getS-kept',[(C,"            return np.array(M) # i.e. not","            return M # i.e. not")],'bad'),
('C05','getitem-view',[('rfObject.py',"        return self.fs[k], self.Ss[k,:,:].copy()","        return self.fs[k], self.Ss[k,:,:]")],'bad'),
('C05','iter-view',[('rfObject.py',"            yield self.fs[k], self.Ss[k,:,:].copy()","            yield self.fs[k], self.Ss[k,:,:]")],'bad'),
('C05','trl-solved',[('rfTRL.py',"            return np.array(self.solved[f]['S'])","            return self.solved[f]['S']")],'bad'),
('C05','trl-vi',[('rfTRL.py',"(np.array(Vsw), np.array(Isw), dict(E))","(Vsw, Isw, E)")],'bad'),
('C05','trl-xs',[('rfTRL.py',"            return np.array(self.solved[f]['xs']), VI1s[0], VI1s[1]","            return self.solved[f]['xs'], VI1s[0], VI1s[1]")],'bad'),
('C05','rlc-S',[('rfRLC.py',"            return np.array(self.S)\n","            return self.S\n")],'bad'),
('C05','arc-S',[('rfArcObj.py',"        return np.array(self.S)","        return self.S")],'bad'),
('C05','get1S',[('rfBase.py',"        return S.copy()","        return S")],'bad'),
('C05','addblock-params',[(C,"            'params' : copy.deepcopy(params),","            'params' : params,")],'bad'),
('C05','addblock-ports',[(C,"oports = ports.copy()\n            elif isinstance(ports, str):\n                oports = [ports % k for k in range(1,N+1)]\n            else:\n                raise ValueError(\n                    f'{whoami(__package__)}: expecting str, dict or list to","oports = ports\n            elif isinstance(ports, str):\n                oports = [ports % k for k in range(1,N+1)]\n            else:\n                raise ValueError(\n                    f'{whoami(__package__)}: expecting str, dict or list to")],'bad'),
('C05','addblock-array',[(C,"            'object' : RFobj if hasattr(RFobj, 'getS') else np.array(RFobj),","            'object' : RFobj if hasattr(RFobj, 'getS') else np.asarray(RFobj),")],'bad'),
('C05','portnames',[(C,"        self.Portnames = list(kwargs.pop('Portnames', []))","        self.Portnames = kwargs.pop('Portnames', [])")],'bad'),
('C05','xpos-rlc',[('rfRLC.py',"self.xpos = list(kwargs.pop('xpos',[0., 0.]))","self.xpos = kwargs.pop('xpos',[0., 0.])")],'bad'),
('C05','setS-keep',[('rfObject.py',"        self.fs = np.append(self.fs,[f])\n        self.Ss = np.append(self.Ss, S, axis=0)","        self.fs = np.append(self.fs,[f])\n        self.Ss = np.append(self.Ss, S, axis=0) if len(self.Ss) else S"),('_check_3D_shape_.py',"    M3= np.array(M3)","    M3= np.asarray(M3)")],'bad'),
('C05','solution-keep',[(C,"        return self.tSol.copy()","        return self.tSol")],'bad'),
('C05','interpkws',[('rfObject.py',"self.interpkws = dict(kwargs.get('interpkws',rcparams['interpkws']))","self.interpkws = kwargs.get('interpkws',rcparams['interpkws'])")],'bad'),
('C05','trl-ports',[('rfTRL.py',"self.ports = list(kwargs.pop('ports',['1','2']))","self.ports = kwargs.pop('ports',['1','2'])")],'bad'),
('C05','extS',[(C,"        return self.S.copy()","        return self.S")],'bad'),
# refactorings
('C05','q-copy',[('rfRLC.py',"            return np.array(self.S)\n","            return self.S.copy()\n")],'quiet'),
('C05','q-local',[('rfArcObj.py',"        self.f, self.S = f, np.array([[Ss]])\n        return np.array(self.S)","        self.f, self.S = f, np.array([[Ss]])\n        return np.array([[Ss]])")],'quiet'),
('C05','q-params',[(C,"            'params' : copy.deepcopy(params),","            'params' : {k: copy.deepcopy(v) for k, v in params.items()},")],'quiet'),
('C05','q-ports',[('rfTRL.py',"self.ports = list(kwargs.pop('ports',['1','2']))","self.ports = [p for p in kwargs.pop('ports',['1','2'])]")],'quiet'),
]
