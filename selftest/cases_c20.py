B='rfBase.py'; W='WriteTSF.py'; CB='codebase.py'; F='config.py'; C='rfCircuit.py'; T='rfTRL.py'
CASES=[
('C20','setports',[(C,"                oports = [ports.pop(_p, _p) for _p in RFobj.ports]","                oports = [ports.pop(_p, _p) for _p in set(RFobj.ports)]")],'bad'),
('C20','setloop',[(C,"        free = list(self.ports)\n        for dp, ip in IntPorts:\n","        free = list(self.ports)\n        for p in {p for p in self.ports}:\n            self.eqns.append(p)\n        for dp, ip in IntPorts:\n")],'bad'),
('C20','rand-id',[(F,"        _newID.N += 1\n","        _newID.N = random.randint(1, 10**9)\n")],'bad'),
('C20','rand-id2',[(F,"    return f'{_newID.N}'","    return ''.join(random.choices('ABC', k=N))")],'bad'),
('C20','time-line',[(B,"        s += f'{tfmt}'+eoln\n","        s += f'{tfmt}'+eoln\n        s += f'!GENERATED {time.time()}'+eoln\n")],'bad'),
('C20','time-comment',[(W,"    scomments = comments.split('\\n')","    scomments = (comments + time.ctime()).split('\\n')")],'bad'),
('C20','env-default',[(F,"    'Zbase'  : 50,       # Ohm","    'Zbase'  : float(os.environ.get('RFZ', 50)),       # Ohm")],'bad'),
('C20','empty',[(C,"                    np.zeros((self.M.shape[0],2*len(IntPorts)),dtype=complex)","                    np.empty((self.M.shape[0],2*len(IntPorts)),dtype=complex)")],'bad'),
('C20','selfstr',[(B,"        s += f'{tfmt}'+eoln\n","        s += f'{tfmt}'+eoln\n        s += f'! {self}'+eoln\n")],'bad'),
('C20','hash-branch',[(B,"        self.set(**kwargs.pop('params', {}))\n        \n        if hasattr(fs,'__iter__'):","        self.set(**kwargs.pop('params', {}))\n        \n        if hasattr(fs,'__iter__') and hash(self.Id) % 2:")],'bad'),
('C20','helper-set',[(B,"        s += f'!PORTS {\", \".join(self.ports)}'+eoln","        s += f'!PORTS {\", \".join(self._pl())}'+eoln"),(B,"    def tsf2str(","    def _pl(self):\n        return list(set(self.ports))\n\n    def tsf2str(")],'bad'),
('C20','diffset',[(B,"                for df in sorted(set(np.diff(Fs))):","                for df in set(np.diff(Fs)):")],'bad'),
('C20','q-sorted',[(C,"                oports = [ports.pop(_p, _p) for _p in RFobj.ports]","                known = sorted(set(RFobj.ports))\n                oports = [ports.pop(_p, _p) for _p in RFobj.ports if _p in known]")],'quiet'),
('C20','q-member',[(C,"        free = list(self.ports)\n","        free = list(self.ports)\n        seen = set(free)\n        if len(seen) != len(free):\n            raise ValueError('duplicate ports')\n")],'quiet'),
('C20','q-date',[(B,"        s += f'! Date : {time.strftime(\"%Y-%m-%d %H:%M:%S\",time.localtime())}'+eoln","        s += self._dl() + eoln"),(B,"    def tsf2str(","    def _dl(self):\n        return f'! Date : {time.strftime(\"%Y-%m-%d %H:%M:%S\",time.localtime())}'\n\n    def tsf2str(")],'quiet'),
('C20','q-date2',[(B,"        s += f'! Date : {time.strftime(\"%Y-%m-%d %H:%M:%S\",time.localtime())}'+eoln","        now = time.strftime(\"%Y-%m-%d %H:%M:%S\",time.localtime())\n        s += '! Date : ' + now + eoln")],'quiet'),
('C20','q-date3',[(B,"        s += f'! Date : {time.strftime(\"%Y-%m-%d %H:%M:%S\",time.localtime())}'+eoln","        s += '! Date : %s' % time.strftime(\"%Y-%m-%d %H:%M:%S\",time.localtime())\n        s += eoln")],'quiet'),
('C20','q-empty',[(C,"                    np.zeros((self.M.shape[0],2*len(IntPorts)),dtype=complex)","                    self._z((self.M.shape[0],2*len(IntPorts)))"),(C,"    def deembed(","    def _z(self, shape):\n        z = np.empty(shape, dtype=complex)\n        z[:] = 0\n        return z\n\n    def deembed(")],'quiet'),
('C20','q-timing',[(T,"        self.set(**params)\n","        self.set(**params)\n        t0 = time.time()\n        _debug_ and logident(f'took {time.time() - t0}')\n"),(T,"import numpy as np","import time\nimport numpy as np")],'quiet'),
('C20','q-min',[(B,"                for df in sorted(set(np.diff(Fs))):\n                    if df > 0.:\n                        break","                df = min((d for d in set(np.diff(Fs)) if d > 0.), default=0.)")],'quiet'),
]
