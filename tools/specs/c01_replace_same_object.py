ID='c01-replace-block'; PROPERTY='C01'
NEEDS='a block of an already evaluated circuit replaced by another one of the same size, evaluated at the same frequency'
BREAKS='the reset of the kept solution only happens for new blocks: replacing a block keeps the old S-matrix'
EDITS=[('rfCircuit.py',"""        self.S = None
        self.invM = None
        
        if '.' in name:""","""        if name not in self.blocks:
            # the matrix grows: the present solution can not be used any more
            self.S = None
            self.invM = None
        
        if '.' in name:""")]
DEMO='''
import numpy as np
from pyRFtk import rfCircuit, rfTRL
def mk(L):
    return rfTRL(L=L, Z0TL=30, ports=['a','b'])
c = rfCircuit(Zbase=50)
c.addblock('T', mk(1.)); c.terminate('T.b', Z=10); c.getS(40e6)
c.addblock('T', mk(2.))
d = rfCircuit(Zbase=50)
d.addblock('T', mk(2.)); d.terminate('T.b', Z=10)
assert np.allclose(c.getS(40e6), d.getS(40e6))
'''
