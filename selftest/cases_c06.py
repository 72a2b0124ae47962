T, B, O, C, L, A = 'rfTRL.py', 'rfBase.py', 'rfObject.py', 'rfCircuit.py', 'rfRLC.py', 'rfArcObj.py'
ROW = """            # the row to be added to self.M
            Mrow = np.zeros((1, self.M.shape[1]), dtype=complex)
            Mrow[-1,idxA] = -1
            Mrow[-1,idxB] = rho # (fails when it is not a number)
            
"""
POP = """            # update the port list
            try:
                _kp = self.ports.index(port)
                self.ports.pop(_kp)
                self.xpos.pop(_kp)
                
            except ValueError:
                raise ValueError(
                    f'{whoami(__package__)}: port {port} already in use'  
                )
        
"""
XP = """        # (fails when relpos is not a number)
        if hasattr(RFobj,'xpos'):
            xpos = [relpos + x for p, x in zip(oports, RFobj.xpos)]
        else:
            xpos = [relpos for p in oports]
            
"""
TSET = """        for kw in kwargs:
            if not hasattr(self, kw):
                raise ValueError(
                    f'{whoami(__package__)}: parameter {kw} not present')  # @UndefinedVariable

        modified = False
        for kw, val in kwargs.items():
"""
CASES = [
    # bad
    ('C06', 'terminate-pop-first', [(C, ROW + POP, POP + ROW)], 'bad'),
    ('C06', 'terminate-kwargs-late', [(C, "        if kwargs:\n            raise ValueError(\n                f'rfCircuit.terminate: unknown kwargs: {", "        if port in self.ports:\n            self.ports.remove(port)\n            self.ports.append(port)\n        if kwargs:\n            raise ValueError(\n                f'rfCircuit.terminate: unknown kwargs: {")], 'bad'),
    ('C06', 'addblock-waves-first', [(C, XP, "        # update the waves\n        self.waves += [f'->{name}.{p}' for p in oports] \\\n                    + [f'<-{name}.{p}' for p in oports]\n" + XP), (C, "        self.waves += [f'->{name}.{p}' for p in oports] \\\n                    + [f'<-{name}.{p}' for p in oports]\n        \n        \n        #", "        #")], 'bad'),
    ('C06', 'addblock-replace-first', [(C, "            if len(RFobj) != len(self.blocks[name]['object']):\n                raise ValueError(", "            old = self.blocks[name]['object']\n            self.blocks[name]['object'] = RFobj if hasattr(RFobj, 'getS') else np.array(RFobj)\n            if len(RFobj) != len(old):\n                raise ValueError("), (C, "f'existing {len(self.blocks[name][\"object\"])}, new", "f'existing {len(old)}, new")], 'bad'),
    ('C06', 'addblock-deep-inplace', [(C, "subblockobj = self.blocks[name]['object'].copy()", "subblockobj = self.blocks[name]['object']"), (C, "subblockobj.addblock(subblock, RFobj, ports=ports, params=params, **kwargs)", "subblockobj.ports.sort()\n            subblockobj.addblock(subblock, RFobj, ports=ports, params=params, **kwargs)")], 'quiet'),   # (the sub-circuit rejects before it changes)
    ('C06', 'connect-twice', [(C, "            if p not in self.ports or p in oldports[:k]:\n", "            if p not in self.ports:\n")], 'bad'),
    ('C06', 'connect-lonely', [(C, "        if newports and not oldports:\n", "        if newports and not ports:\n")], 'bad'),
    ('C06', 'connect-inuse', [(C, "            if p not in self.ports or p in oldports[:k]:\n", "            if p in oldports[:k] or (not newports and p not in self.ports):\n")], 'bad'),
    ('C06', 'deembed-ext', [(C, "            for p in (dp, ep):\n                if p not in free:", "            for p in (dp,):\n                if p not in free:")], 'bad'),
    ('C06', 'trl-set-loop', [(T, TSET, "        modified = False\n        for kw, val in kwargs.items():\n            if not hasattr(self, kw):\n                raise ValueError(\n                    f'{whoami(__package__)}: parameter {kw} not present')\n")], 'bad'),
    ('C06', 'trl-set-constant', [(T, "        if kwargs and not self.constant:\n", "        if 'L' in kwargs:\n            self.xpos = [self.xpos[0], kwargs['L'] + self.xpos[0]]\n        if kwargs and not self.constant:\n")], 'bad'),
    ('C06', 'rlc-set-loop', [(L, "        for kw in kwargs:\n            if not hasattr(self, kw) or kw not in self.attrs:\n                raise ValueError(f'rfRLC.set: parameter {kw} not present')\n\n        modified = False\n        for kw, val in kwargs.items():\n", "        modified = False\n        for kw, val in kwargs.items():\n            if not hasattr(self, kw) or kw not in self.attrs:\n                raise ValueError(f'rfRLC.set: parameter {kw} not present')\n")], 'bad'),
    ('C06', 'setS-ports', [(O, "        # ports is defined \n        if len(ports)", "        self.ports = ports\n        if len(ports)")], 'bad'),
    ('C06', 'setitem-fs', [(O, "        fs, Ss = self.fs.copy(), self.Ss.copy()\n", "        fs, Ss = self.fs, self.Ss.copy()\n")], 'bad'),
    ('C06', 'setS-fs', [(O, "        fs = np.append(self.fs[keep], f)\n        \n        # do", "        self.fs = fs = np.append(self.fs[keep], f)\n        \n        # do")], 'bad'),
    ('C06', 'sortports-first', [(O, "            if len(idxs) != len(self.ports):\n                raise", "            self.Ss = self.Ss[:,:,idxs][:,idxs,:]\n            if len(idxs) != len(self.ports):\n                raise")], 'bad'),
    ('C06', 'convert-first', [(O, "        self.Ss = ConvertGeneral(newZbase, self.Ss, self.Zbase, 'V', 'V')\n        self.Zbase = newZbase\n", "        Zbase, self.Zbase = self.Zbase, newZbase\n        self.Ss = ConvertGeneral(newZbase, self.Ss, Zbase, 'V', 'V')\n")], 'bad'),
    ('C06', 'obj-deembed-inplace', [(O, "        Ss = self.Ss.copy()\n        \n        for kp, port", "        Ss = self.Ss\n        \n        for kp, port")], 'bad'),
    ('C06', 'circuit-set-pair', [(C, "                if isinstance(ak, tuple) and len(ak) == 2:\n", "                if isinstance(ak, tuple) and len(ak) >= 2:\n                    self.set(**{ak[0].split('.')[0]: {ak[0].split('.')[1]: ak[1]}})\n                    ak = ak[:2] if len(ak) == 2 else ak\n                if isinstance(ak, tuple) and len(ak) == 2:\n")], 'bad'),
    # quiet
    ('C06', 'q-terminate-complex', [(C, ROW + POP, POP.replace("            # update", "            rho = complex(rho)\n            # update") + ROW)], 'quiet'),
    ('C06', 'q-connect-sets', [(C, "        for k, p in enumerate(oldports):\n            if p not in self.ports or p in oldports[:k]:\n", "        for p in oldports:\n            if oldports.count(p) > 1 or p not in self.ports:\n")], 'quiet'),
    ('C06', 'q-trl-set', [(T, TSET, "        wrong = [kw for kw in kwargs if not hasattr(self, kw)]\n        if wrong:\n            raise ValueError(f'{whoami(__package__)}: parameter {wrong[0]} not present')\n\n        modified = False\n        for kw, val in kwargs.items():\n")], 'quiet'),
    ('C06', 'q-set-rollback', [(L, "        modified = False\n        for kw, val in kwargs.items():\n", "        modified = False\n        for kw in kwargs:\n            val = kwargs[kw]\n")], 'quiet'),
    ('C06', 'q-xpos', [(C, XP, "        xs = RFobj.xpos if hasattr(RFobj, 'xpos') else [0] * N\n        xpos = [relpos + x for _, x in zip(oports, xs)]\n")], 'quiet'),
    ('C06', 'q-setitem', [(O, "        fs, Ss = self.fs.copy(), self.Ss.copy()\n        fs[k] = value[0]\n        Ss[k,:,:] = value[1]\n", "        f, S = value[0], value[1]\n        Ss = np.array(self.Ss)\n        Ss[k] = S\n        fs = np.array(self.fs)\n        fs[k] = f\n")], 'quiet'),
    ('C06', 'q-deembed', [(C, "        free = list(self.ports)\n        for dp, ip in IntPorts:\n", "        free = self.ports[:]\n        for pair in IntPorts:\n            dp, ip = pair\n")], 'quiet'),
]
