T, B, O, C, L, A, V = 'rfTRL.py', 'rfBase.py', 'rfObject.py', 'rfCircuit.py', 'rfRLC.py', 'rfArcObj.py', 'plotVSWs.py'
MAP = "                oports = [ports.pop(_p, _p) for _p in RFobj.ports]\n"
POST = """                # possibly the user supplied non-existing port names
                if ports:
                    raise ValueError(
                        f'{whoami(__package__)}["{name}"]: ports {ports} not defined')
        
        if not oports: # thus"""
TPL = "oports = [ports % k for k in range(1,N+1)]\n                 \n            else:\n                raise ValueError(\n"
REP = """            self.blocks[name]['object'] = (
                RFobj if hasattr(RFobj, 'getS') else np.array(RFobj))
            
            _debug_ and tLogger.debug(ident(
                f'< [circuit.addblock] (replaced at this level)', -1"""
CASES = [
    # bad
    ('C16', 'map-sorted', [(C, MAP + POST, MAP.replace("in RFobj.ports]", "in sorted(RFobj.ports)]") + POST)], 'quiet'),   # (all models have sorted ports or none)
    ('C16', 'map-late', [(C, MAP + POST, "                oports = [_p for _p in RFobj.ports if _p not in ports] + [ports.pop(_p) for _p in RFobj.ports if _p in ports]\n" + POST)], 'bad'),
    ('C16', 'template-zero', [(C, TPL, TPL.replace("range(1,N+1)", "range(N)"))], 'bad'),
    ('C16', 'xpos-relpos', [(C, "xpos = [relpos + x for p, x in zip(oports, RFobj.xpos)]", "xpos = [x for p, x in zip(oports, RFobj.xpos)]")], 'quiet'),
    ('C16', 'xpos-lost', [(C, "xpos = [relpos + x for p, x in zip(oports, RFobj.xpos)]", "xpos = [relpos] * N")], 'bad'),
    ('C16', 'replace-len', [(C, "if len(RFobj) != len(self.blocks[name]['object']):", "if len(RFobj.ports) != len(self.blocks[name]['object'].ports):")], 'bad'),
    ('C16', 'replace-kept-S', [(C, "        self.S = None\n        self.invM = None\n        \n        if '.' in name:", "        if '.' in name:")], 'bad'),
    ('C16', 'replace-subblock', [(C, "            self.blocks[name]['object'] = subblockobj\n", "")], 'bad'),
    ('C16', 'rlc-nolen', [(L, "        return len(self.ports)\n", "        return 1\n")], 'bad'),
    ('C16', 'trl-xpos-number', [(T, "self.xpos = [self.xpos[0], self.L + self.xpos[0]]", "self.xpos = [self.xpos[0], self.L + self.xpos[0]]")], 'quiet'),
    ('C16', 'maxv-obj-ports', [(C, "                Ek = dict(zip(obj.ports, cps))", "                Ek = dict(zip(blk['ports'], cps))")], 'bad'),
    ('C16', 'maxv-len1', [(C, "                        if len(VSW) == 1 and blkID in VSW:", "                        if len(VSW) == 1:")], 'quiet'),
    ('C16', 'maxv-xst', [(C, "                        VSW = (xst, VSW[1])", "                        VSW = (np.array(xpos), VSW[1])")], 'bad'),
    ('C16', 'maxv-complex', [(L, "        Vi = np.abs(Ea + Eb)\n        maxVi = np.max(Vi)\n        k = np.where(Vi == maxVi)[0][0]\n        \n        return maxVi, ID", "        Vi = Ea + Eb\n        maxVi = np.max(np.abs(Vi))\n        k = np.where(np.abs(Vi) == maxVi)[0][0]\n        \n        return maxVi, ID")], 'bad'),
    ('C16', 'maxv-single-x', [(L, "(np.zeros(Vi.shape),Vi)", "(np.zeros(1),Vi)")], 'bad'),
    ('C16', 'maxv-scalar', [(C, "VSWs[Id][w[2:]] = ([x], [Vk]) ", "VSWs[Id][w[2:]] = (x, Vk) ")], 'bad'),
    ('C16', 'maxv-place', [(T, "return xymax[1], f' node: {self.ports[0]} @ {xymax[0]:.3f}m', (xs, Usw)", "return xymax[1], xymax[0], (xs, Usw)")], 'bad'),
    ('C16', 'scale-positions', [(V, "                for k in range(len(val[1])):\n                    val[1][k] *= scale\n", "                for k in range(len(val[1])):\n                    val[0][k] *= scale\n")], 'bad'),
    ('C16', 'scale-copy', [(V, "                for k in range(len(val[1])):\n                    val[1][k] *= scale\n", "                val = (val[0], [v * scale for v in val[1]])\n")], 'bad'),
    ('C16', 'scale-lists', [(V, "            scaleVSW(val, scale)\n        elif hasattr(val, '__len__') and len(val) == 2:", "            scaleVSW(val, scale)\n        elif isinstance(val, list) and len(val) == 2:")], 'bad'),
    ('C16', 'scale-first', [(V, "                for k in range(len(val[1])):", "                for k in range(len(val)):")], 'bad'),
    ('C16', 'print-start', [(V, "                for _, (x, y) in enumerate(zip(val[0], val[1]),1):" if False else "                    for _, (x, y) in enumerate(zip(val[0], val[1]),1):", "                    for _, (x, y) in enumerate(zip(val[0][1:], val[1][1:]),1):")], 'bad'),
    ('C16', 'print-deep', [(V, "            s += strVSW(val,indent+1)\n", "            s = strVSW(val,indent+1)\n")], 'bad'),
    ('C16', 'plot-nodes', [(V, "                if isinstance(xs[0], (float,int)):\n                    plt.plot(xs, absV, 'd', label=lbl)", "                if isinstance(xs[0], (float,int)):\n                    plt.plot(xs[0], absV, 'd', label=lbl)")], 'bad'),
    ('C16', 'plot-swapped', [(V, "plt.plot(xs, absV, '.-' if plotpoints else '-', label=lbl)", "plt.plot(absV, xs, '.-' if plotpoints else '-', label=lbl)")], 'bad'),
    ('C16', 'copy-empty', [(L, "            try:\n                other.__dict__[attr] = copy.deepcopy(val)", "            try:\n                if not attr.endswith('s'): other.__dict__[attr] = copy.deepcopy(val)")], 'bad'),
    ('C16', 'str-full', [(B, "                lmax = max([len(p) for p in self.ports])", "                lmax = max([len(p) for p in self.port])")], 'bad'),
    ('C16', 'base-single-port', [(A, "self.f, self.S = f, np.array([[Ss]])", "self.f, self.S = f, np.array([Ss])")], 'bad'),
    # quiet
    ('C16', 'q-map', [(C, MAP + POST, "                oports = []\n                for _p in RFobj.ports:\n                    oports.append(ports.pop(_p) if _p in ports else _p)\n" + POST)], 'quiet'),
    ('C16', 'q-template', [(C, TPL, TPL.replace("ports % k for k in range(1,N+1)", "ports % (k + 1) for k in range(N)"))], 'quiet'),
    ('C16', 'q-xpos', [(C, "        self.xpos += xpos\n", "        for x in xpos:\n            self.xpos.append(x)\n")], 'quiet'),
    ('C16', 'q-replace', [(C, REP, REP.replace("            self.blocks[name]['object'] = (\n                RFobj if hasattr(RFobj, 'getS') else np.array(RFobj))\n", "            new = RFobj if hasattr(RFobj, 'getS') else np.array(RFobj)\n            self.blocks[name].update(object=new)\n"))], 'quiet'),
    ('C16', 'q-maxv-find', [(C, "if w.find(blkports) == 0]", "if w.startswith(blkports)]")], 'quiet'),
    ('C16', 'q-maxv-where', [(L, "        maxVi = np.max(Vi)\n        k = np.where(Vi == maxVi)[0][0]\n", "        k = int(np.argmax(Vi))\n        maxVi = Vi[k]\n")], 'quiet'),
    ('C16', 'q-maxv-list', [(L, "(np.zeros(Vi.shape),Vi)", "(np.zeros(len(Vi)), Vi)")], 'quiet'),
    ('C16', 'q-scale', [(V, "                for k in range(len(val[1])):\n                    val[1][k] *= scale\n", "                for k, v in enumerate(val[1]):\n                    val[1][k] = v * scale\n")], 'quiet'),
    ('C16', 'q-print', [(V, "        s += f'{\" \"*indent}{key}\\n'\n", "        s += ' ' * indent + str(key) + '\\n'\n")], 'quiet'),
    ('C16', 'q-plot', [(V, "            if any([x != xs[0] for x in xs]) or any([v != absV[0] for v in absV]):", "            varies = any(x != xs[0] for x in xs) or any(v != absV[0] for v in absV)\n            if varies:")], 'quiet'),
    ('C16', 'q-waves', [(C, "                k1 = self.waves.index('<-'+w[2:])\n                Vk = np.abs(self.sol[k]  + self.sol[k1])", "                node = w[2:]\n                Vk = np.abs(Esol[w] + Esol['<-' + node])")], 'quiet'),
    ('C16', 'q-eye', [(C, "                np.nan * np.ones((N, N), dtype=complex),", "                np.full((N, N), np.nan, dtype=complex),")], 'quiet'),
]
