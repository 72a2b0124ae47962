G = 'rfGTL.py'
P = 'C21'
CASES = [
    (P, 'g-cs-unit', [(G, "'Cs'  : 1e-12", "'Cs'  : 1e-9")], 'bad'),
    (P, 'g-rho-unit', [(G, "'rho' : 1e-6", "'rho' : 1e-8")], 'bad'),
    (P, 'g-no-larc', [(G, "                'Larc': 1e-9,\n", "")], 'bad'),
    (P, 'g-z-converted', [(G, "                'Larc': 1e-9,\n", "                'Larc': 1e-9,\n                'Rs': 1e-3,\n")], 'bad'),
    (P, 'g-inplace', [(G, "tkwargs[kw] = tkwargs[kw] * conv[kw]", "tkwargs[kw] *= conv[kw]")], 'bad'),
    (P, 'g-list-only', [(G, "elif isinstance(tkwargs[kw], (list, tuple)):", "elif isinstance(tkwargs[kw], list):")], 'bad'),
    (P, 'g-table-positions', [(G, "tkwargs[kw] = [xs, [v * conv[kw] for v in vs]]", "tkwargs[kw] = [[x * conv[kw] for x in xs], [v * conv[kw] for v in vs]]")], 'bad'),
    (P, 'g-table-not', [(G, "tkwargs[kw] = [xs, [v * conv[kw] for v in vs]]", "pass")], 'bad'),
    (P, 'g-list-twice', [(G, "tkwargs[kw] = [v * conv[kw] for v in tkwargs[kw]]", "tkwargs[kw] = [v * conv[kw] for v in tkwargs[kw]]\n                        if len(tkwargs[kw]) == 1:\n                            tkwargs[kw] = tkwargs[kw][0] * conv[kw]")], 'bad'),
    (P, 'g-vars-order', [(G, "        self.vars = dict(self.locvars)\n", "        self.vars = dict(self.glovars)\n"), (G, "        self.vars.update(self.glovars)\n", "        self.vars.update(self.locvars)\n")], 'bad'),
    (P, 'g-vars-setdefault', [(G, "self.glovars.update(variables)", "self.glovars = dict(variables, **self.glovars)")], 'bad'),
    (P, 'g-vars-caller', [(G, "        self.glovars.update(variables)\n", "        variables.update(dict(self.glovars, **variables))\n        self.glovars = variables\n")], 'bad'),
    (P, 'g-eval-partial', [(G, "if not (resolved and isinstance(val, str))", "if True")], 'bad'),
    (P, 'g-z-remap', [(G, "                                                  ('Z0TL', 'Z', False),\n", "")], 'bad'),
    (P, 'g-remap-silent', [(G, "            elif kwAlt in aDict:\n                raise ValueError(", "            elif kwAlt in aDict and mandatory:\n                raise ValueError(")], 'bad'),
    (P, 'g-oc-sc', [(G, "terminated = {'Z':0}, '[sc]'", "terminated = {'Y':0}, '[sc]'")], 'bad'),
    (P, 'g-pos-last', [(G, "tblk['xpos'] = positions[p] - rfobj_xpos[1] + rfobj_xpos[0]", "tblk['xpos'] = positions[p] - rfobj_xpos[1]"), (G, "tblock['xpos'] = positions[p] - xp\n", "tblock['xpos'] = positions[p] - xp if not kp else positions[p]\n")], 'bad'),
    (P, 'g-copy-reread', [(G, "                other.__dict__[attr] = deepcopy(val)\n            except:\n                print(f'{whoami(__package__)}: failed", "                other.__dict__[attr] = deepcopy(val) if attr != 'invM' else None\n            except:\n                print(f'{whoami(__package__)}: failed")], 'quiet'),
    # quiet
    (P, 'g-helper', [(G, """                        # not in place: the value may be a variable's array
                        tkwargs[kw] = tkwargs[kw] * conv[kw]
""", """                        tkwargs[kw] = conv[kw] * tkwargs[kw]
""")], 'quiet'),
    (P, 'g-loop', [(G, "            for kw in conv:\n                if kw in tkwargs:\n", "            for kw in list(tkwargs):\n                if kw in conv:\n")], 'quiet'),
    (P, 'g-micro', [(G, "'rho' : 1e-6", "'rho' : 1e-3 * 1e-3")], 'quiet'),
    (P, 'g-vars-merge', [(G, "        self.vars = dict(self.locvars)\n", "        self.vars = {**self.locvars, **self.glovars}\n"), (G, "        self.vars.update(self.glovars)\n", "")], 'quiet'),
    (P, 'g-class-table', [(G, "            for kw in conv:\n                if kw in tkwargs:", "            for kw, unit in conv.items():\n                if kw in tkwargs.keys():")], 'quiet'),
    (P, 'g-remap-first', [(G, "            #----------------------------------------------------- convert units  \n", "            tkwargs = self._remap_(blk, tkwargs, [('xpos', 'relpos', False)])\n            #----------------------------------------------------- convert units  \n"), (G, "                                                  ('Z0TL', 'Z', False),\n                                                  ('xpos', 'relpos', False)])", "                                                  ('Z0TL', 'Z', False)])")], 'quiet'),
    (P, 'g-rlc-set', [(G, "if any([kw in tkwargs for kw in ['Ls','Cs','Rs','Lp','Cp','Rp']]):", "if set(tkwargs) & {'Ls','Cs','Rs','Lp','Cp','Rp'}:")], 'quiet'),
    (P, 'g-builder', [(G, "RFobj = rfRLC(Zbase=self.Zbase,**tkwargs)", "RFobj = rfRLC(**dict(tkwargs, Zbase=self.Zbase))")], 'quiet'),
    (P, 'g-array-list', [(G, "                    elif isinstance(tkwargs[kw], (list, tuple)):\n                        tkwargs[kw] = [v * conv[kw] for v in tkwargs[kw]]\n", "                    elif isinstance(tkwargs[kw], (list, tuple)):\n                        tkwargs[kw] = np.array(tkwargs[kw]) * conv[kw]\n")], 'quiet'),
]
