B='rfBase.py'; W='WriteTSF.py'; RT='ReadTSF.py'; G='rfGTL.py'; D='ReadDictData.py'; F='config.py'; T='rfTRL.py'; GL='getlines.py'
CASES=[
('C15','remove-nonempty',[(F,"        if s == 0:","        if s < 100:")],'bad'),
('C15','remove-always',[(F,"        if s == 0:\n","        os.remove(LOGFILE)\n        if s == 0:\n            return\n")],'bad'),
('C15','remove-neg',[(F,"        if s == 0:","        if s != 0:")],'bad'),
('C15','readdict-eval',[(D,"return ast.literal_eval(f.read())","return eval(f.read())")],'bad'),
('C15','gtl-eval-file',[(G,"self.model = ast.literal_eval(f.read())","self.model = eval(f.read())")],'bad'),
('C15','gtl-eval-file2',[(G,"self.model = ast.literal_eval(f.read())","txt = f.read()\n            self.model = self._parse(txt)"),(G,"    def getSgtl(","    def _parse(self, txt):\n        return eval(txt, {}, {})\n\n    def getSgtl(")],'bad'),
('C15','tsf-eval',[(RT,"items = [float(s) for s","items = [eval(s) for s")],'bad'),
('C15','reader-cache',[(RT,"    comments, fs = [], []\n","    comments, fs = [], []\n    if isinstance(src, str) and kwargs.get('cache'):\n        open(src + '.cache', 'w').close()\n")],'bad'),
('C15','write-cwd',[(B,"with open(f'{tsbasename}.s{len(self)}p', 'w') as f:","with open(f'{self.Id}.s{len(self)}p', 'w') as f:")],'bad'),
('C15','append-mode',[(GL,"with open(src,'r') as f:","with open(src,'a+') as f:")],'bad'),
('C15','rplus',[(GL,"with open(src,'r') as f:","with open(src,'r+') as f:")],'bad'),
('C15','backup',[(W,"    if path2tsf:\n","    if path2tsf:\n        import os\n        if os.path.exists(path2tsf): os.replace(path2tsf, path2tsf + '~')\n")],'bad'),
('C15','np-save',[(T,"        self.set(**params)\n","        self.set(**params)\n        if kw.get('dump'): np.save('last_S.npy', np.array(fs))\n")],'bad'),
('C15','system',[(F,"            os.remove(LOGFILE)","            os.system('rm -f ' + LOGFILE)")],'bad'),
('C15','q-pathlib',[(B,"        with open(f'{tsbasename}.s{len(self)}p', 'w') as f:\n            f.write(self.tsf2str(**kwargs))","        fn = f'{tsbasename}.s{len(self)}p'\n        self._put(fn, self.tsf2str(**kwargs))\n"),(B,"    def write_tsf(","    def _put(self, fn, text):\n        with open(fn, 'w') as f:\n            f.write(text)\n\n    def write_tsf(")],'quiet'),
('C15','q-not',[(F,"        if s == 0:\n","        if not s:\n")],'quiet'),
('C15','q-order',[(F,"        if s == 0:\n            # print(f'pyRFtk.config.CleanUpLogFile: deleting {LOGFILE} [{s} bytes]')\n            os.remove(LOGFILE)\n        else:\n            print(f'pyRFtk.config.CleanUpLogFile: keeping {LOGFILE} [{s} bytes]')","        if s > 0:\n            print(f'pyRFtk.config.CleanUpLogFile: keeping {LOGFILE} [{s} bytes]')\n            return\n        os.remove(LOGFILE)")],'quiet'),
('C15','q-evalhelper',[(G,"                        found[var] = eval(val, globals(), self.vars)\n                    except (NameError","                        found[var] = self._ev(val)\n                    except (NameError"),(G,"    def getSgtl(","    def _ev(self, val):\n        return eval(val, globals(), self.vars)\n\n    def getSgtl(")],'quiet'),
('C15','q-mode',[(GL,"with open(src,'r') as f:","with open(src, mode='rt') as f:")],'quiet'),
('C15','q-size',[(F,"        s = os.path.getsize(LOGFILE)\n        if s == 0:","        empty = os.path.getsize(LOGFILE) == 0\n        s = 0\n        if empty:")],'quiet'),
]
