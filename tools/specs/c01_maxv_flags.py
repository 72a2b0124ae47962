ID='c01-maxv-flags'; PROPERTY='C01'
NEEDS='a circuit containing a block whose S-matrix depends on an evaluation flag, maximum voltage asked with that flag'
BREAKS='maxV evaluates the circuit without the flags of the call, so node voltages describe another evaluation than the one asked for'
EDITS=[('rfCircuit.py',"""        Eb = self.getS(f, Zbase, flags=flags) @ Ea   # implicitly updates and solves the circuit""","""        Eb = self.getS(f, Zbase) @ Ea   # implicitly updates and solves the circuit""")]
DEMO='''
import numpy as np
from pyRFtk import rfCircuit, rfRLC
class Blk(rfRLC):
    def getS(self, fs, Zbase=None, params={}, flags={}):
        S = super().getS(fs, Zbase=Zbase)
        return 0.5 * S if flags.get('half') else S
c = rfCircuit(Zbase=50)
c.addblock('B', Blk(Ls=1e-6, ports=['a', 'b']))
c.terminate('B.b', Z=20)
E = {'B.a': 1.}
V0 = c.Solution(40e6, E, flags={'half': 1}, nodes=[])['B.a'][0]
Vm = c.maxV(40e6, E, flags={'half': 1})[2]
k = list(Vm)[0]
assert np.isclose(abs(V0), Vm[k]['B.a'][1][0]), (abs(V0), Vm[k])
'''
