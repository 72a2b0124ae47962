P, T = 'resolveTLparams.py', 'rfTRL.py'
B = 'bad'
Q = 'quiet'
CASES = [
    ('C10', 'ctl-vr', [(P, "return 1 / (self.Z0TL(w,x) * c0 * self.vr(w,x))", "return self.vr(w,x) / (self.Z0TL(w,x) * c0)")], B),
    ('C10', 'ltl-c0', [(P, "return self.Z0TL(w,x) / (c0 * self.vr(w,x))", "return self.Z0TL(w,x) / c0 / self.vr(w,0*x)")], B),
    ('C10', 'z0-sq', [(P, "return  self.LTL(w,x) / self.Z0TL(w,x) ** 2", "return  self.LTL(w,x) / self.Z0TL(w,x) / self.Zbase")], B),
    ('C10', 'gtl-etar', [(P, "2*np.pi*self.sigma(w,x)*self.etar(w,x)*eta0coax/self.Z0TL(w,x)", "2*np.pi*self.sigma(w,x)*eta0coax/self.Z0TL(w,x)/self.etar(w,x)")], B),
    ('C10', 'gtl-deps', [(P, "('gTL', ('ID', 'OD', 'sigma'), 0., _gTL__ID_OD_sigma_),", "('gTL', ('ID', 'OD', 'sigma'), 0., _gTL__etar_sigma_Z0TL_),")], B),
    ('C10', 'od-exp', [(P, "return self.ID(w,x) * np.exp(self.Z0TL(w,x)/(eta0coax*self.etar(w,x)))", "return self.ID(w,x) * np.exp(self.Z0TL(w,x)*self.etar(w,x)/eta0coax)")], B),
    ('C10', 'rtl-o', [(P, "return self.rTL(w,x) - self.rTLI(w,x)", "return self.rTL(w,x) + self.rTLI(w,x)")], B),
    ('C10', 'rs-ddw', [(P, "('RsI', ('rhoI', 'murI'), 1.,", "('RsI', ('rhoI', 'murI'), 0.,")], B),
    ('C10', 'sigma-ddw', [(P, "('sigma', ('tand', 'epsr'), 1.,", "('sigma', ('tand', 'epsr'), 0.,")], B),
    ('C10', 'tand-ddw', [(P, "('tand', ('sigma', 'epsr'), 1.,", "('tand', ('sigma', 'epsr'), 0.,")], B),
    ('C10', 'gtl-A-ddw', [(P, "('gTL', ('rTL', 'LTL', 'CTL', 'A'), 1, _g", "('gTL', ('rTL', 'LTL', 'CTL', 'A'), 0, _g")], B),
    ('C10', 'rjwl-ddw', [(P, "('rjwL', ('rTL','LTL'), 1.,", "('rjwL', ('rTL','LTL'), 0.,")], B),
    ('C10', 'ddx-all', [(P, "'ddx': any([self.kwset[d].get('ddx',False)", "'ddx': all([self.kwset[d].get('ddx',False)")], B),
    ('C10', 'rho-murO', [(P, "np.sqrt(w * mu0 * self.murO(w, x) * self.rhoO(w, x) / 2)", "np.sqrt(w * mu0 * self.murI(w, x) * self.rhoO(w, x) / 2)")], B),
    ('C10', 'rho-half', [(P, "np.sqrt(w * mu0 * self.murI(w, x) * self.rhoI(w, x) / 2)", "np.sqrt(w * mu0 * self.murI(w, x) * self.rhoI(w, x))")], B),
    ('C10', 'adb', [(P, "self.AdB(w,x) * np.log(10) / 20", "self.AdB(w,x) * np.log(10) / 10")], B),
    ('C10', 'A-root', [(P, "rwL = - (1 + 2 * u2) * gwC + 2 * u", "rwL = - (1 + 2 * u2) * gwC - 2 * u")], B),
    ('C10', 'A-u', [(P, "gwC = - (1 + 2 * u2) * rwL +", "gwC = - (1 + u2) * rwL +")], B),
    ('C10', 'A-total', [(P, "a2 = (np.sqrt(rwLgwC1**2 + (rwL + gwC)**2) - rwLgwC1) / 2", "a2 = (np.sqrt(rwLgwC1**2 + (rwL + gwC)**2) - 1) / 2")], B),
    ('C10', 'epsr-etar', [(P, "self.mur(w,x) / self.etar(w,x)**2", "self.mur(w,x) * self.etar(w,x)**2")], B),
    ('C10', 'vr-etar', [(P, "            ('vr', ('etar', 'mur'), 0., lambda w, x:                         #36\n                self.etar(w,x) / self.mur(w,x)", "            ('vr', ('etar', 'mur'), 0., lambda w, x:                         #36\n                self.mur(w,x) / self.etar(w,x)")], B),
    ('C10', 'etar-vr', [(P, "self.mur(w,x) * self.vr(w,x)\n", "self.mur(w,x) / self.vr(w,x)\n")], B),
    ('C10', 'mur-sq', [(P, "1 / (self.epsr(w, x) * self.vr(w, x)**2)", "1 / (self.epsr(w, x) * self.vr(w, x))")], B),
    ('C10', 'args-swapped', [(P, "return (lambda w, x: p(x,w)), ddw, ddx", "return (lambda w, x: p(w,x)), ddw, ddx")], B),
    ('C10', 'only-x', [(P, "return  (lambda w, x: p(x)), ddw, ddx", "return  (lambda w, x: p(x)), ddw, False")], B),
    ('C10', 'only-w-mark', [(P, "return (lambda w, x: p(w)), ddw, ddx", "return (lambda w, x: p(w)), False, ddx")], B),
    ('C10', 'list-mark', [(P, "return lambda w, x: f(np.array(x)), False, True\n            \n        elif", "return lambda w, x: f(np.array(x)), True, False\n            \n        elif")], B),
    ('C10', 'list-L', [(P, "num=len(p)) * self.L", "num=len(p))")], B),
    ('C10', 'table-rows', [(P, "f = interp1d(p[0,:], p[1,:], kind", "f = interp1d(p[1,:], p[0,:], kind")], B),
    ('C10', 'forget-A-losses', [(P, "setattr(self, 'rTL', lambda w, x: 0.)", "setattr(self, 'rTL', lambda w, x: 1.)")], B),
    ('C10', 'rho-inner', [(P, "for kw, cnd in zip(['rhoI','rhoO'],['inner','outer']):", "for kw, cnd in zip(['rhoI'],['inner','outer']):")], B),
    ('C10', 'zbase', [(P, "lambda w=0, x=0: self.Zbase)", "lambda w=0, x=0: 1.)")], B),
    ('C10', 'tand-mum', [(P, "self.sigma(w,x) / (w * self.epsr(w,x) * e0)", "self.sigma(w,x) / (w * e0)")], B),
    ('C10', 'qtl', [(P, "1/ (np.pi * self.OD(w,x))", "2/ (np.pi * self.OD(w,x))")], B),
    ('C10', 'const-flag', [(T, "self.TLP.kwset[_]['ddx'] for _ in ['rjwL','gjwC']", "self.TLP.kwset[_]['ddx'] for _ in ['rjwL']")], B),
    ('C10', 'reads-undeclared', [(P, "('mur', ('LTL','ID','OD'), 0., lambda w, x:\n                2*np.pi * self.LTL(w,x)", "('mur', ('LTL','ID','OD'), 0., lambda w, x:\n                2*np.pi * self.Z0TL(w,x)**2*self.CTL(w,x)")], B),
    # refactorings
    ('C10', 'r-ctl', [(P, "return 1 / (self.Z0TL(w,x) * c0 * self.vr(w,x))", "v = c0 * self.vr(w, x)\n            return (v * self.Z0TL(w,x)) ** -1")], Q),
    ('C10', 'r-A', [(P, """            a2 = (np.sqrt(rwLgwC1**2 + (rwL + gwC)**2) - rwLgwC1) / 2
            return np.sqrt(a2 * wL * wC)""", """            return np.real(np.sqrt((self.rTL(w,x) + 1j*wL) * (self.gTL(w,x) + 1j*wC)))""")], Q),
    ('C10', 'r-A2', [(P, """            a2 = (np.sqrt(rwLgwC1**2 + (rwL + gwC)**2) - rwLgwC1) / 2
            return np.sqrt(a2 * wL * wC)""", """            h = np.abs((rwL + 1j) * (gwC + 1j))
            return np.sqrt((h - rwLgwC1) * wL * wC / 2)""")], Q),
    ('C10', 'r-loss', [(P, """            D2 = (gwC ** 2 + 1) * (u2 + 1)
            rwL = - (1 + 2 * u2) * gwC + 2 * u * np.sqrt(D2) 
            return rwL * wL""", """            s = u * np.sqrt((1 + gwC ** 2) * (1 + u ** 2))
            return (2 * s - gwC - 2 * u2 * gwC) * wL""")], Q),
    ('C10', 'r-log', [(P, "return self.etar(w,x) * eta0coax * np.log(self.OD(w,x)/self.ID(w,x))", "return self.etar(w,x) * eta0coax * (np.log(self.OD(w,x)) - np.log(self.ID(w,x)))")], Q),
    ('C10', 'r-log2', [(P, "return 2*np.pi * self.sigma(w,x) / np.log(self.OD(w,x)/self.ID(w,x))", "return -2*np.pi * self.sigma(w,x) / np.log(self.ID(w,x)/self.OD(w,x))")], Q),
    ('C10', 'r-mark', [(P, "'ddw': ddw or any([self.kwset[d].get('ddw',False) \n                                              for d in depends]),", "'ddw': any([ddw] + [self.kwset[_]['ddw'] for _ in depends]),")], Q),
    ('C10', 'r-order', [(P, """            ('etar', ('mur', 'epsr'), 0., lambda w, x:                       #29
                np.sqrt(self.mur(w,x) / self.epsr(w,x))
            ),
            ('mur', ('etar', 'epsr'), 0., lambda w, x:                         #30
                self.etar(w, x)**2 * self.epsr(w,x)
            ),""".replace('  #30', '#30'), """            ('mur', ('etar', 'epsr'), 0., lambda w, x:                       #30
                self.etar(w, x)**2 * self.epsr(w,x)
            ),
            ('etar', ('mur', 'epsr'), 0., lambda w, x:                       #29
                (self.mur(w,x) / self.epsr(w,x)) ** 0.5
            ),""")], Q),
    ('C10', 'r-adb', [(P, "self.AdB(w,x) * np.log(10) / 20", "np.log(10 ** (self.AdB(w,x) / 20))")], Q),
    ('C10', 'r-rs', [(P, "np.sqrt(w * mu0 * self.murI(w, x) * self.rhoI(w, x) / 2)", "self.rhoI(w, x) / np.sqrt(2 * self.rhoI(w, x) / (w * mu0 * self.murI(w, x)))")], Q),
    ('C10', 'r-args', [(P, "return (lambda w, x: p(x,w)), ddw, ddx", "return (lambda w, x: p(w=w, x=x)), ddw, ddx")], Q),
    ('C10', 'r-avail', [(P, "avail = lambda *__:  [_ in self.kwset for _ in __]", "def avail(*names):\n            return [n in self.kwset for n in names]")], Q),
    ('C10', 'r-lin', [(P, "xs = np.linspace(0., 1., num=len(p)) * self.L", "n = len(p) - 1\n                xs = np.array([self.L * k / n for k in range(n + 1)])")], Q),
    ('C10', 'r-func', [(P, "tsig = list(signature(p).parameters.keys())", "tsig = [a for a in signature(p).parameters]")], Q),
    ('C10', 'r-eqns', [(P, "for eqn, (kw, depends, ddw, fun) in enumerate(EQNS):", "for kw, depends, ddw, fun in EQNS:")], Q),
    ('C10', 'r-gamma', [(P, "return (self.gjwC(w,x)*self.rjwL(w,x))**0.5", "return np.sqrt(self.gjwC(w,x)*self.rjwL(w,x))")], Q),
    ('C10', 'r-found', [(P, "while not all([hasattr(self,p) for p in var]):", "while any(p not in self.kwset for p in var):")], Q),
    ('C10', 'r-print', [(P, "            print('TLresolve: could not not solve it')\n            print(self)", "            print('could not solve')")], Q),
]
