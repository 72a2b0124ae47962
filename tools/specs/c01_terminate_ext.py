ID='c01-terminate-external'; PROPERTY='C01'
NEEDS='a circuit evaluated with a free external port which is terminated afterwards, then evaluated again at the same frequency'
BREAKS='terminating a port that was external in an earlier evaluation keeps the S-matrix of before'
EDITS=[('rfCircuit.py',"""            self.invM = None
            self.S = None
                        
""","""            self.invM = None
                        
""")]
DEMO='''
import numpy as np
from pyRFtk import rfCircuit, rfTRL
def mk():
    c = rfCircuit(Zbase=50)
    c.addblock('T', rfTRL(L=1., Z0TL=30, ports=['a','b']))
    return c
c = mk(); c.getS(40e6); c.terminate('T.b', Z=10)
d = mk(); d.terminate('T.b', Z=10)
S, R = c.getS(40e6), d.getS(40e6)
assert S.shape == R.shape and np.allclose(S, R), (S, R)
'''
