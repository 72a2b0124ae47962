L, T, A, K = 'rfRLC.py', 'rfTRL.py', 'rfArcObj.py', 'rfCoupler.py'
P = 'resolveTLparams.py'
CASES = [
    ('C09', 'rlc-cs', [(L, "1/jw/self.Cs)/Zbase", "1/(jw*self.Cs))/Zbase")], 'quiet'),
    ('C09', 'rlc-cs-sign', [(L, "1/jw/self.Cs)/Zbase", "1j/jw/self.Cs)/Zbase")], 'bad'),
    ('C09', 'rlc-yp-zbase', [(L, "jw * self.Cp)*Zbase", "jw * self.Cp)*self.Zbase")], 'bad'),
    ('C09', 'rlc-lp', [(L, "1/jw/self.Lp + ", "jw/self.Lp + ")], 'bad'),
    ('C09', 'rlc-matrix', [(L, """                            [[     1   , 1 - yp],
                             [  1 - zs ,  -1   ]])
            else""", """                            [[     1   , 1 - yp],
                             [  zs - 1 ,  -1   ]])
            else""")], 'bad'),
    ('C09', 'rlc-solve', [(L, """self.S = np.linalg.inv(
                            [[     1   , 1 + yp],
                             [-(1 + zs),   1   ]]
                        ) @ np.array(""", """self.S = np.linalg.solve(
                            [[     1   , 1 + yp],
                             [-(1 + zs),   1   ]],
""")], 'quiet'),
    ('C09', 'rlc-closed', [(L, """                self.S = np.linalg.inv(
                            [[     1   , 1 + yp],
                             [-(1 + zs),   1   ]]
                        ) @ np.array(
                            [[     1   , 1 - yp],
                             [  1 - zs ,  -1   ]])
            else""", """                d = 1 + (1 + yp) * (1 + zs)
                self.S = np.array([[1 - (1 + yp)*(1 - zs), 2],
                                   [2, (1 + zs)*(1 - yp) - 1]]) / d
            else""")], 'quiet'),
    ('C09', 'rlc-closed-wrong', [(L, """                self.S = np.linalg.inv(
                            [[     1   , 1 + yp],
                             [-(1 + zs),   1   ]]
                        ) @ np.array(
                            [[     1   , 1 - yp],
                             [  1 - zs ,  -1   ]])
            else""", """                d = 1 + (1 + yp) * (1 + zs)
                self.S = np.array([[1 - (1 + yp)*(1 - zs), 2],
                                   [2, 1 - (1 + zs)*(1 - yp)]]) / d
            else""")], 'bad'),
    ('C09', 'rlc-dc-order', [(L, "[[1, 0j],[0j, rcp ]]", "[[rcp, 0j],[0j, 1 ]]")], 'bad'),
    ('C09', 'rlc-dc-rp', [(L, "if self.Rp != +np.inf:\n                            rcp = (self.Rp - Zbase) / (self.Rp + Zbase)", "if self.Rp != +np.inf:\n                            rcp = (self.Rp - self.Zbase) / (self.Rp + self.Zbase)")], 'bad'),
    ('C09', 'rlc-dc-short', [(L, "self.S = np.array([[1, 0j], [0j, -1]], dtype=complex)", "self.S = np.array([[-1, 0j], [0j, 1]], dtype=complex)")], 'bad'),
    ('C09', 'rlc-dc-rs', [(L, "zs = self.Rs/Zbase\n", "zs = 0.\n")], 'bad'),
    ('C09', 'rlc-default-cs', [(L, "kwargs.pop('Cs', +np.inf)", "kwargs.pop('Cs', 0.)")], 'bad'),
    ('C09', 'rlc-params', [(L, "setattr(self, p, params.get(p, getattr(self, p)))", "setattr(self, p, getattr(self, p, params.get(p)))")], 'bad'),
    ('C09', 'arc-sign', [(A, "Ss = (jwL - self.Zbase) / (jwL + self.Zbase)", "Ss = (self.Zbase - jwL) / (jwL + self.Zbase)")], 'bad'),
    ('C09', 'arc-open', [(A, "Ss = 1. + 0j", "Ss = -1. + 0j")], 'bad'),
    ('C09', 'arc-2pi', [(A, "2j * np.pi * f  * self.Larc", "1j * np.pi * f  * self.Larc")], 'bad'),
    ('C09', 'coupler-ports', [(K, """            [[0., A, B, 0.],
             [A, 0., 0., B],
             [B, 0., 0., A],
             [0., B, A, 0.]]""", """            [[0., A, 0., B],
             [A, 0., B, 0.],
             [0., B, 0., A],
             [B, 0., A, 0.]]""")], 'bad'),
    ('C09', 'coupler-sign', [(K, "1j * self.kc * sinblc / N", "-1j * self.kc * sinblc / N")], 'bad'),
    ('C09', 'coupler-db', [(K, "10**(-np.abs(self.kcdB)/20)", "10**(-np.abs(self.kcdB)/10)")], 'bad'),
    ('C09', 'coupler-db-form', [(K, "10**(-np.abs(self.kcdB)/20)", "1/10**(np.abs(self.kcdB)/20)")], 'quiet'),
    ('C09', 'coupler-quarter', [(K, "self.Lc = c0/(4*self.f0Hz)", "self.Lc = c0/(2*self.f0Hz)")], 'bad'),
    ('C09', 'coupler-dc', [(K, "blc = 2*np.pi*f / c0 * self.Lc if self.Lc else np.pi/2", "blc = 2*np.pi*f / c0 * (self.Lc if self.Lc else c0/(4*f))")], 'bad'),
    ('C09', 'coupler-exp', [(K, "cosblc, sinblc = np.cos(blc), np.sin(blc)", "e = np.exp(1j*blc)\n        cosblc, sinblc = e.real, e.imag")], 'quiet'),
    ('C09', 'line-z', [(T, "U01 = Zc **2 * I10", "U01 = Zc * I10")], 'bad'),
    ('C09', 'line-y', [(T, "I10 = 0.5 * (egmx - egmx1) / Zc", "I10 = 0.5 * (egmx1 - egmx) / Zc")], 'bad'),
    ('C09', 'line-cosh', [(T, """                    egmx = np.exp(gm * xs)
                    egmx1 = 1/egmx
                    
                    U10 = 0.5 * (egmx + egmx1)
                    I10 = 0.5 * (egmx - egmx1) / Zc
                    U01 = Zc **2 * I10
""", """                    U10 = np.cosh(gm * xs)
                    I10 = np.sinh(gm * xs) / Zc
                    U01 = np.sinh(gm * xs) * Zc
""")], 'quiet'),
    ('C09', 'line-zc', [(T, "Zc = self.rjwL(w,0) / gm", "Zc = gm / self.gjwC(w,0)")], 'quiet'),
    ('C09', 'line-zc-wrong', [(T, "Zc = self.rjwL(w,0) / gm", "Zc = gm / self.rjwL(w,0)")], 'bad'),
    ('C09', 'line-dc', [(T, "I10 = self.gjwC(w,0) * xs", "I10 = 0 * xs")], 'bad'),
    ('C09', 'line-dc-none', [(T, "                if gm == 0:", "                if False:")], 'bad'),
    ('C09', 'line-zero-length', [(T, "I10 = np.zeros(np.array(xs).shape, dtype=complex)", "I10 = np.ones(np.array(xs).shape, dtype=complex)")], 'bad'),
    ('C09', 'line-set-xpos', [(T, "            setattr(self, kw, val)\n            self.kwargs[kw] = val\n", "            self.kwargs[kw] = val\n")], 'bad'),
    ('C09', 'line-zbase', [(T, "            S = S_from_VI(VIt[:,:,-1], self.Zbase)", "            S = S_from_VI(VIt[:,:,-1], 50.)")], 'bad'),
    ('C09', 'line-first', [(T, "S_from_VI(VIt[:,:,-1], self.Zbase)", "S_from_VI(VIt[:,:,0], self.Zbase)")], 'bad'),
    ('C09', 'line-xs', [(T, "xs = np.linspace(0, self.L, max(2,num))\n            \n", "xs = np.linspace(0, self.L, max(2,num), endpoint=False)\n            \n")], 'bad'),
    ('C09', 'visw-current', [(T, "Is = -(As - Bs) / Zbase", "Is = (As - Bs) / Zbase")], 'bad'),
    ('C09', 'visw-base', [(T, "Is = -(As - Bs) / Zbase", "Is = -(As - Bs) / self.Zbase")], 'bad'),
    ('C09', 'eqn-x', [(T, "dIC = self.gjwC(w, x) *", "dIC = self.gjwC(w, 0) *")], 'bad'),
    ('C09', 'eqn-parts', [(T, "return [dVC.real, dVC.imag, dIC.real, dIC.imag]", "return [dVC.real, dVC.imag, dIC.imag, dIC.real]")], 'bad'),
    ('C09', 'eqn-cross', [(T, "dVC = self.rjwL(w, x) * (VI4[2]+1j*VI4[3])", "dVC = self.rjwL(w, x) * (VI4[2]-1j*VI4[3])")], 'bad'),
    ('C09', 'eqn-start', [(T, "odeint(eqnVI, [0.,0.,1.,0.], xs", "odeint(eqnVI, [0.,0.,2.,0.], xs")], 'bad'),
    ('C09', 'eqn-array', [(T, "return [dVC.real, dVC.imag, dIC.real, dIC.imag]", "return np.array([np.real(dVC), np.imag(dVC), np.real(dIC), np.imag(dIC)])")], 'quiet'),
    ('C09', 'param-vr', [(P, "return self.Z0TL(w,x) / (c0 * self.vr(w,x))", "return self.Z0TL(w,x) / c0 * self.vr(w,x)")], 'bad'),
    ('C09', 'param-gtl', [(P, "if not any(avail('gTL', 'sigma', 'tand', 'Am', 'AmdB')):", "if not any(avail('sigma', 'tand', 'Am', 'AmdB')):")], 'bad'),
]
