T, B, O, C, G, L, A, K = 'rfTRL.py', 'rfBase.py', 'rfObject.py', 'rfCircuit.py', 'ConvertGeneral.py', 'rfRLC.py', 'rfArcObj.py', 'rfCoupler.py'
R, M, P, F, X = 'ReadTSF.py', 'maxfun.py', 'plotVSWs.py', 'config.py', 'rfGTL.py'
CASES = [
    ('C14', 'exts-region', [(C, "            tLogger.debug(ident(f'S:'))\n", "            tLogger.debug(ident(f'S:'))\n            self.S = np.round(self.S, 5)\n")], 'bad'),
    ('C14', 'exts-local', [(C, "            tLogger.debug(ident(f'S:'))\n", "            tLogger.debug(ident(f'S:'))\n            QB = QB * 1\n")], 'quiet'),
    ('C14', 'base-format', [(B, "f'S[k]={S}'", "f'S[k]={S:.3f}'")], 'bad'),
    ('C14', 'find-empty', [(C, "                    logident(s)\n", "                    logident(s[4:])\n")], 'bad'),
    ('C14', 'find-array', [(C, "                        for _p in blk['ports']:\n                            s +=", "                        for _p, _ in zip(blk['ports'], blk['xpos']):\n                            s +=")], 'bad'),
    ('C14', 'ident-split', [(F, "(message[1:].lstrip().split() + [''])[0]", "message[1:].lstrip().split()[0]")], 'bad'),
    ('C14', 'strval-str', [(F, "        try:\n            s = str(val)\n        except:\n            s = f'<{type(val).__name__}>'\n", "        s = str(val)\n")], 'quiet'),
    ('C14', 'level-number', [(F, "level if isinstance(level, int) else logging._nameToLevel[level]", "logging._nameToLevel[level]")], 'bad'),
    ('C14', 'level-names', [(F, "    for lvl, name in logging._levelToName.items():\n        logit[name] = tLogger.isEnabledFor(lvl)", "    logit[logging.getLevelName(newLvl)] = tLogger.isEnabledFor(newLvl)")], 'quiet'),
    ('C14', 'flags-key', [(C, "('flag sNp set to False' if 'sNp' in flags else '(why?)')", "('flag sNp set to False' if not flags['sNp'] else '(why?)')")], 'bad'),
    ('C14', 'term-row', [(C, "                        tLogger.debug(ident(f'self.M[{k}] -> {mp}'))\n", "                        tLogger.debug(ident(f'self.M[{k}] -> {mp}'))\n                        self.M[self.E[port],k] = 0.\n")], 'bad'),
    ('C14', 'term-key', [(C, "f'self.E[\"{port}\"] = {self.E[port]}'", "f'self.E[\"{port}\"] = {self.C[port]}'")], 'bad'),
    ('C14', 'maxfun-in-debug', [(M, "            debug and tLogger.debug(ident('Warning result outside window'))\n            for xm, ym in zip(xs[idx:idx+3],ys[idx:idx+3]):\n                if ym > xymax[1]:\n                    xymax = xm, ym\n", "            if debug:\n                tLogger.debug(ident('Warning result outside window'))\n                for xm, ym in zip(xs[idx:idx+3],ys[idx:idx+3]):\n                    if ym > xymax[1]:\n                        xymax = xm, ym\n")], 'bad'),
    ('C14', 'tsf-ports', [(R, "f'found ports in tsf {ports}'", "f'found ports in tsf {[ports.pop() for _ in ports]}'")], 'bad'),
    ('C14', 'object-fs', [(O, "f'fs = {fs}, kw = {kw} [sNp={self.touchstone}]'", "f'fs = {fs:.1f}, kw = {kw} [sNp={self.touchstone}]'")], 'bad'),
    ('C14', 'object-pop', [(O, "f'fs = {fs}, kw = {kw} [sNp={self.touchstone}]'", "f'fs = {fs}, funit={kw.pop(\"funit\", None)}, kw = {kw}'")], 'bad'),
    ('C14', 'add-keys', [(C, "f'ports= {ports}, params={params}, kwargs= {kwargs}',\n            1", "f'ports= {list(ports.keys())}, params={params}, kwargs= {kwargs}',\n            1")], 'bad'),
    ('C14', 'conn-join', [(C, "f'ports= {ports}',\n            1", "f'ports= {\", \".join(ports[0])}',\n            1")], 'quiet'),
    ('C14', 'sol-format', [(C, "ls = max([len(_) for _ in self.tSol])", "ls = max([len(_) for _ in nodes])")], 'bad'),
    ('C14', 'sol-name', [(C, "            for node, (Vn, In, An, Bn) in self.tSol.items():\n", "            for w, (Vn, In, An, Bn) in self.tSol.items():\n                node = w\n")], 'quiet'),
    ('C14', 'sol-shadow', [(C, "            for node, (Vn, In, An, Bn) in self.tSol.items():\n", "            for nodes, (Vn, In, An, Bn) in self.tSol.items():\n                node = nodes\n")], 'bad'),
    ('C14', 'base-return', [(B, "        _debug_ and logident(f'fs={fs}')\n", "        if _debug_:\n            logident(f'fs={fs}')\n            fs = np.sort(fs)\n")], 'bad'),
    ('C14', 'plot-type', [(P, "type(VSW)={type(VSW)}", "VSW={len(VSW[0])}")], 'bad'),
    ('C14', 'general-msg', [(G, "        _debug_ and logident('< L==1')\n", "        _debug_ and logident(f'< L==1 {S2[0,1,1]}')\n")], 'bad'),
    ('C14', 'gtl-msg', [(X, "_debug_ and logident(f'not using sNp')", "_debug_ and logident('not using ' + self.sNp)")], 'bad'),
    ('C14', 'rlc-pop', [(L, "        _debug_ and logident('>', printargs=True)\n", "        _debug_ and logident('> ' + str(kwargs.popitem()), printargs=True)\n")], 'bad'),
    ('C14', 'reuse-debug', [(C, "if f != self.f or self.S is None or", "if _debug_ or f != self.f or self.S is None or")], 'quiet'),
    # quiet
    ('C14', 'q-helper', [(C, "        _debug_ and tLogger.debug(ident(f'new ports: {\", \".join(newports)}', 0))\n", "        if _debug_:\n            msg = ', '.join(newports)\n            if msg:\n                tLogger.debug(ident(f'new ports: {msg}', 0))\n")], 'quiet'),
    ('C14', 'q-list', [(C, "            tLogger.debug(ident(f'tSol:'))\n", "            lines = []\n            lines.append('tSol:')\n            for line in lines:\n                tLogger.debug(ident(line))\n")], 'quiet'),
    ('C14', 'q-alias', [(B, "        _debug_ = logit['DEBUG'] \n        _debug_ and logident('>', printargs=True)\n        \n        _debug_ and logident(f'shape", "        _debug_ = bool(logit['DEBUG'])\n        if _debug_:\n            logident('>', printargs=True)\n        \n        _debug_ and logident(f'shape")], 'quiet'),
    ('C14', 'q-remove', [(C, "        _debug_ and tLogger.debug(ident(f'deleted port {_p}', 0))\n", "        pass\n")], 'quiet') if 0 else
    ('C14', 'q-none', [(O, "        debug and tLogger.debug(ident('< [rfObject.getS]',-1))\n", "        if debug:\n            last = Ss\n            tLogger.debug(ident(f'< [rfObject.getS] {type(last)}',-1))\n")], 'quiet'),
]
