"""self-tests of C11"""
W = 'WriteTSF.py'
R = 'ReadTSF.py'
B = 'rfBase.py'
O = 'rfObject.py'
T = 'rfTRL.py'
CASES = [
    ('C11', 'w-deg', [(W, "np.angle(dij,1))", "np.angle(dij))")], 'bad'),
    ('C11', 'w-db10', [(W, "(20.*np.log10(np.abs(dij)),", "(10.*np.log10(np.abs(dij)),")], 'bad'),
    ('C11', 'w-zref', [(W, "d = object.getS(fk, Zbase=zref)", "d = object.getS(fk)")], 'bad'),
    ('C11', 'w-default-zref', [(W, "        zref = 50.0\n", "        zref = object.Zbase\n")], 'bad'),
    ('C11', 'w-default-unit', [(W, "or ['GHZ'])", "or ['MHZ'])")], 'bad'),
    ('C11', 'w-default-fmt', [(W, "fmt = 'MA'  # touchstone default", "fmt = 'RI'")], 'bad'),
    ('C11', 'w-transpose', [(W, "        if nports == 2: # touchstone convention for 2-ports\n            d = np.transpose(d)\n", "")], 'bad'),
    ('C11', 'w-wrap-5', [(W, "if (kc % 4 == 3) and", "if (kc % 5 == 4) and")], 'bad'),
    ('C11', 'w-fs-given', [(W, "    if len(fs) == 0:\n        \n        # try", "    if True:\n        \n        # try")], 'bad'),
    ('C11', 'w-no-upper', [(W, "                tsf_format.upper()\n                )[0]", "                tsf_format\n                )[0]")], 'bad'),
    ('C11', 'b-deg', [(B, "'MA': lambda z: '  %15.12f %9.4f' % (np.abs(z), np.angle(z,deg=1)),", "'MA': lambda z: '  %15.12f %9.4f' % (np.abs(z), np.angle(z)),")], 'bad'),
    ('C11', 'b-noconv', [(B, "'S' : ( lambda S_: ConvertGeneral(Zref, S_, self.Zbase) ),", "'S' : ( lambda S_: S_ ),")], 'bad'),
    ('C11', 'b-default-unit', [(B, "'MA', 'S', 50.0, 1e9, 'GHZ'", "'MA', 'S', 50.0, 1e6, 'MHZ'")], 'bad'),
    ('C11', 'b-z-ref', [(B, "'Z' : ( lambda S_: Z_from_S(S_, self.Zbase) ),", "'Z' : ( lambda S_: Z_from_S(S_, Zref) ),")], 'bad'),
    ('C11', 'b-fs-scale', [(B, "Fs = np.array(fs) / fscale", "Fs = np.array(fs) / 1e6")], 'bad'),
    ('C11', 'b-ports-order', [(B, "!PORTS {\", \".join(self.ports)}", "!PORTS {\", \".join(sorted(self.ports)[::-1])}")], 'bad'),
    ('C11', 'r-default-unit', [(R, "'S', 'MA', 'GHZ', None", "'S', 'MA', 'HZ', None")], 'bad'),
    ('C11', 'r-default-fmt', [(R, "'S', 'MA', 'GHZ', None", "'S', 'RI', 'GHZ', None")], 'bad'),
    ('C11', 'r-default-R', [(R, "        Zbase = 50. if Zbase is None else Zbase\n", "        Zbase = TZbase if Zbase is None else Zbase\n")], 'bad'),
    ('C11', 'r-transpose', [(R, "    if N == 2: # touchstone convention", "    if N == 3: # touchstone convention")], 'bad'),
    ('C11', 'r-vwaves', [(R, "        elif Zbase is not None and (nZbase == 1 or nZbase == Ss.shape[1]):\n            Ss = ConvertGeneral(TZbase, Ss, Zbase, 'P', 'V')", "        elif Zbase is not None and (nZbase == 1 or nZbase == Ss.shape[1]):\n            Ss = ConvertGeneral(TZbase, Ss, Zbase, 'V', 'V')")], 'bad'),
    ('C11', 'r-db', [(R, "Ss = 10**(Ss.real/20.)", "Ss = 10**(Ss.real/10.)")], 'bad'),
    ('C11', 'r-lower', [(R, "tformat[1:].upper().split()", "tformat[1:].split()")], 'bad'),
    ('C11', 'r-unit', [(R, "fscale(funit, Tfunit)", "fscale(funit)")], 'bad'),
    ('C11', 'r-zc-first-freq', [(R, "            Ss = ConvertGeneral(TZbase, Ss, Zcs, 'P', 'V')\n                \n", "            Ss = ConvertGeneral(TZbase, Ss, Zcs[0], 'P', 'V')\n                \n")], 'bad'),
    ('C11', 'r-ports-len', [(R, "elif ports and len(ports) == N: ", "elif ports and len(ports) == 2: ")], 'bad'),
    ('C11', 'r-last-rlist', [(R, "                Zbase = Zlist\n", "                Zbase = Zlist[0]\n")], 'bad'),
    ('C11', 'r-rem-comment', [(R, "aline.split('!',1)[0].split()]", "aline.split()]")], 'bad'),
    ('C11', 'r-two-lines', [(R, "                if tformat is not None:\n", "                if tformat is not None and tformat == aline:\n")], 'bad'),
    ('C11', 't-zbase', [(T, "                                   Zbase=self.Zbase, \n", "")], 'bad'),
    ('C11', 't-db', [(T, "'DB': (lambda f: 10**(f1(f)/20)", "'DB': (lambda f: 10**(f1(f)/10)")], 'bad'),
    # behaviour-preserving
    ('C11', 'q-w-degrees', [(W, "tnumfmt % (np.abs(dij),np.angle(dij,1))", "tnumfmt % (np.hypot(np.real(dij), np.imag(dij)), np.degrees(np.angle(dij)))")], 'quiet'),
    ('C11', 'q-w-join', [(W, "    s += '\\n# %s \\n\\n' % tsf_format\n", "    s = ''.join([s, '\\n', f'# {tsf_format}', ' \\n\\n'])\n")], 'quiet'),
    ('C11', 'q-w-T', [(W, "d = np.transpose(d)", "d = d.T")], 'quiet'),
    ('C11', 'q-r-items', [(R, "                    items = [float(s) for s in aline.split('!',1)[0].split()]\n", "                    items = list(map(float, aline.partition('!')[0].split()))\n")], 'quiet'),
    ('C11', 'q-r-polar', [(R, "        Ss = Ss.real * np.exp(1j * Ss.imag * np.pi / 180.)", "        ang = np.radians(Ss.imag)\n        Ss = Ss.real * (np.cos(ang) + 1j * np.sin(ang))")], 'quiet'),
    ('C11', 'q-r-swap', [(R, "    if N == 2: # touchstone convention for 2-ports\n        Ss = np.transpose(Ss, (0, 2, 1))", "    if N == 2:\n        Ss = np.swapaxes(Ss, 1, 2)")], 'quiet'),
    ('C11', 'q-r-cond', [(R, "TZbase = TZbase if TZbase else 50.", "TZbase = TZbase or 50.")], 'quiet'),
    ('C11', 'q-b-format', [(B, "'RI': lambda z: '  %11.8f %11.8f' % (z.real, z.imag),", "'RI': lambda z: '  {:11.8f} {:11.8f}'.format(z.real, z.imag),")], 'quiet'),
    ('C11', 'q-b-freq', [(B, "freq_fmt % fk", "(freq_fmt % (fk,))")], 'quiet'),
    ('C11', 'q-w-with', [(W, "        with open(path2tsf,'w') as f:\n            f.write(s)\n", "        f = open(path2tsf, mode='w')\n        try:\n            print(s, end='', file=f)\n        finally:\n            f.close()\n")], 'quiet'),
]
