def s(ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO):
    return dict(ID=ID, PROPERTY=PROPERTY, NEEDS=NEEDS, BREAKS=BREAKS, EDITS=EDITS, DEMO=DEMO)
SPECS = [
s('c07-g-conj', 'C07', 'generalised waves at complex port impedances', 'the reflected generalised wave uses the impedance rather than its conjugate in the way back to V and I',
  [('ConvertGeneral.py', "QVa, QVb = np.conj(Zd) * iRd, Zd * iRd           # (nF,N)", "QVa, QVb = Zd * iRd, np.conj(Zd) * iRd           # (nF,N)")],
  '''
import numpy as np
from pyRFtk.ConvertGeneral import ConvertGeneral
S = np.array([[.1+.2j, .3], [.25, -.1j]])
z = [20+5j, 40-3j]
T = ConvertGeneral(z, ConvertGeneral(50., S, z, 'G', 'V'), 50., 'V', 'G')
assert np.allclose(S, T), T
'''),
s('c07-port-impedances-per-frequency', 'C07', 'a stack of matrices with one list of different port impedances and as many frequencies as ports',
  'a list of port impedances is taken column wise when repeated over the frequencies',
  [('ConvertGeneral.py', "Zd = np.array(Zd.tolist() * nF).reshape(nF,N)", "Zd = np.array(Zd.tolist() * nF).reshape(N,nF).T")],
  '''
import numpy as np
from pyRFtk.ConvertGeneral import ConvertGeneral
S = np.array([[[.1+.2j, .3], [.25, -.1j]], [[.2, .1j], [.3, .4]]])
z = [20., 40.]
T = ConvertGeneral(50., S, z)
for k in range(2):
    assert np.allclose(T[k], ConvertGeneral(50., S[k], z)), k
'''),
s('c08-retermination', 'C08', 'a port that is terminated a second time after the circuit has been evaluated',
  'changing the termination of a port writes the reflection coefficient in the column of the wrong wave',
  [('rfCircuit.py', """            idxA, idxB, eqn = self.T[port]
            self.M[eqn, idxB] = rho""", """            idxB, idxA, eqn = self.T[port]
            self.M[eqn, idxB] = rho""")],
  '''
import numpy as np
from pyRFtk import rfCircuit, rfTRL
c = rfCircuit(Zbase=50)
c.addblock('A', rfTRL(L=1.3, Z0TL=40, ports=['x', 'y']))
c.terminate('A.y', Z=20)
c.getS(40e6)
c.terminate('A.y', Z=75)
d = rfCircuit(Zbase=50)
d.addblock('A', rfTRL(L=1.3, Z0TL=40, ports=['x', 'y']))
d.terminate('A.y', Z=75)
assert np.allclose(c.getS(40e6), d.getS(40e6))
'''),
s('c08-solution-vr', 'C08', 'a solution expressed for another impedance than the circuit has', 'the waves of a node are the ones at the impedance of the circuit',
  [('rfCircuit.py', """                    Vr = (Vk - Zbase * Ik) / 2
""", """                    Vr = (Vk - self.Zbase * Ik) / 2
""")],
  '''
import numpy as np
from pyRFtk import rfCircuit, rfTRL
c = rfCircuit(Zbase=50)
c.addblock('A', rfTRL(L=1.3, Z0TL=40, ports=['x', 'y']))
c.terminate('A.y', Z=20)
s = c.Solution(40e6, {'A.x': 1.}, Zbase=30)
V, I, a, b = s['A.x']
assert np.isclose(V, a + b) and np.isclose(I, (a - b) / 30), s
'''),
s('c09-rlc-dc-rp', 'C09', 'zero frequency, no series capacitor, a shunt resistor and no shunt inductance',
  'at zero frequency the shunt resistance is taken as an admittance with the wrong scaling',
  [('rfRLC.py', "yp = Zbase/self.Rp", "yp = self.Zbase/self.Rp")],
  '''
import numpy as np
from pyRFtk import rfRLC
o = rfRLC(Rs=10, Rp=20, Zbase=50)
a, b = o.getS(0., Zbase=30), o.getS(1e-3, Zbase=30)
assert np.allclose(a, b), (a, b)
'''),
s('c09-coupler-phase', 'C09', 'a hybrid coupler away from its quarter wave frequency', 'the coupled wave lacks the frequency dependence of its phase',
  [('rfCoupler.py', "A, B = s1k2 / N, 1j * self.kc * sinblc / N", "A, B = s1k2 / N, 1j * self.kc * sinblc / np.abs(N) / 1j")],
  '''
import numpy as np
from pyRFtk import rfCoupler
o = rfCoupler(f0Hz=40e6, kc=.5)
for f in (20e6, 30e6, 55e6):
    S = o.getS(f)
    assert np.allclose(S @ S.conj().T, np.eye(4)), f
'''),
s('c11-wrap-5port', 'C11', 'a network of five ports or more written by tsf2str', 'a row of more than four coefficients is no longer broken after the fourth but after the fifth',
  [('rfBase.py', """        CN = 4
""", """        CN = 5
""")],
  '''
import numpy as np
from pyRFtk.rfBase import rfBase
n = 5
S = (np.arange(n*n).reshape(1, n, n) + 1j) / 60
t = rfBase(Ss=S, fs=[40e6]).tsf2str(tfmt='# MHZ S RI R 50')
for l in t.split('\\n'):
    if l.strip() and l.strip()[0] not in '!#':
        assert len(l.split('!')[0].split()) <= 9, l
'''),
s('c11-mixed-R', 'C11', 'an option line with a list of different reference impedances', 'only the first of the impedances of the option line is applied, to all ports',
  [('ReadTSF.py', "            if (NZ := len(Zlist)) == 1:\n", "            if (NZ := len(Zlist)) >= 1:\n")],
  '''
import numpy as np
from pyRFtk.ReadTSF import ReadTSF
from pyRFtk.ConvertGeneral import ConvertGeneral
t = """! two impedances
# MHZ S RI R 20 40
40 .1 .2 .3 .1 .25 0 .3 .3
"""
S = np.array([[.1+.2j, .25], [.3+.1j, .3+.3j]])
assert np.allclose(ReadTSF(t, Zbase=50)['Ss'][0], ConvertGeneral(50., S, [20., 40.], 'P', 'V'))
'''),
s('c11-db-real', 'C11', 'a touchstone text in dB read by a line element', 'magnitudes in dB are converted as powers when a line takes its data from a file in dB',
  [('rfTRL.py', "'DB': (lambda f: 10**(f1(f)/20) * np.exp(1j*f2(f))),", "'DB': (lambda f: 10**(f1(f)/20) * np.exp(-1j*f2(f))),")],
  '''
import numpy as np
from pyRFtk import rfTRL
from pyRFtk.ReadTSF import ReadTSF
t = """! dB
# MHZ S DB R 50
40 -3 10 -6 20 -6 20 -4 30
41 -3 11 -6 21 -6 21 -4 31
"""
assert np.allclose(rfTRL(sNp=t, L=1).getS(40e6), ReadTSF(t, Zbase=50)['Ss'][0])
'''),
]
