def s(ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO):
    return dict(ID=ID, PROPERTY=PROPERTY, NEEDS=NEEDS, BREAKS=BREAKS, EDITS=EDITS, DEMO=DEMO)
MODEL = '''
import os, tempfile, numpy as np
def model(d):
    fn = os.path.join(tempfile.mkdtemp(), 'a.ciamod')
    with open(fn, 'w') as f:
        f.write(repr(d))
    return fn
'''
SPECS = [
s('c21-variable-precedence', 'C21', 'a model whose block variables and global variables share a name',
  'the variables of the block hide the global ones given by the caller',
  [('rfGTL.py', "        self.vars = dict(self.locvars)\n", "        self.vars = dict(self.glovars)\n"),
   ('rfGTL.py', "        self.vars.update(self.glovars)\n", "        self.vars.update(self.locvars)\n")],
  MODEL + '''
from pyRFtk import rfGTL, rfRLC
fn = model({'X': {'Portnames': ['p', 'q'], 'variables': {'a': 10}, 'GTL': {'B': {'ports': ['p', 'q'], 'Ls': 'a'}}}})
g = rfGTL(fn, objkey='X', variables={'a': 25.}, Zbase=50)
assert np.allclose(g.getS(4e7), rfRLC(Ls=25e-9, Zbase=50).getS(4e7))
'''),
s('c21-tuple-unit', 'C21', 'a dimensional keyword whose expression is a tuple', 'a tuple of values loses all but its last unit conversion',
  [('rfGTL.py', "                        tkwargs[kw] = [v * conv[kw] for v in tkwargs[kw]]\n", "                        tkwargs[kw] = [v * (conv[kw] if isinstance(tkwargs[kw], list) else 1.) for v in tkwargs[kw]]\n")],
  MODEL + """
from pyRFtk import rfGTL, rfTRL
fn = model({'X': {'Portnames': ['p', 'q'], 'GTL': {'B': {'ports': ['p', 'q'], 'L': 1., 'OD': '(200, 300)', 'ID': 100}}}})
g = rfGTL(fn, objkey='X', Zbase=50)
assert np.allclose(g.getS(4e7), rfTRL(L=1., OD=[.2, .3], ID=.1, Zbase=50).getS(4e7))
"""),
s('c21-termination-open', 'C21', 'a stub ended by [oc]', 'an open end is terminated by zero impedance rather than by zero admittance',
  [('rfGTL.py', "terminated = {'Y':0}, '[oc]'", "terminated = {'Z':0}, '[oc]'")],
  MODEL + '''
from pyRFtk import rfGTL, rfTRL
fn = model({'X': {'Portnames': ['p'], 'GTL': {'B': {'ports': ['p', '[oc]'], 'L': 1., 'Z': 50}}}})
g = rfGTL(fn, objkey='X', Zbase=50)
b = 2*np.pi*4e7/299792458
assert np.allclose(g.getS(4e7), np.exp(-2j*b)), g.getS(4e7)
'''),
s('c12-trl-tuple', 'C12', 'a tuple of frequencies for a line given by a table', 'only lists and arrays are sequences for a line',
  [('rfTRL.py', "        if hasattr(fs,'__iter__'):\n            for f in fs:\n                Ss.append(get1S(f))\n            Ss = np.array(Ss)\n", "        if isinstance(fs, (list, np.ndarray)):\n            for f in fs:\n                Ss.append(get1S(f))\n            Ss = np.array(Ss)\n")],
  """
import numpy as np
from pyRFtk import rfTRL
t = rfTRL(L=1., Z0TL=30)
S = t.getS((4e7, 5e7))
assert S.shape == (2, 2, 2) and np.allclose(S[1], t.getS(5e7))
"""),
s('c12-z-single-stack', 'C12', 'a stack that holds a single matrix', 'a stack of one matrix is answered by a matrix',
  [('Z_from_S.py', "Z[0,:,:] if L==2 else Z", "Z[0,:,:] if len(Z)==1 else Z")],
  """
import numpy as np
from pyRFtk.Z_from_S import Z_from_S
S = np.array([[[.1, .2j], [.2j, .3]]])
assert Z_from_S(S).shape == (1, 2, 2)
assert Z_from_S(S[0]).shape == (2, 2)
assert Z_from_S([.1]).shape == (1,)
"""),
s('c13-trl-frequency-key', 'C13', 'two frequencies less than 1 Hz apart in one sweep of a lossy line', 'solutions are kept per whole number of Hz',
  [('rfTRL.py', "        if f not in self.solved:\n            \n            if isinstance(self.dx, int)", "        if (f := int(f) if f > 1 else f) not in self.solved:\n            \n            if isinstance(self.dx, int)")],
  """
import numpy as np
from pyRFtk import rfTRL
t = rfTRL(L=1e6, Z0TL=30)
a = t.getS([1000., 1000.75])
assert not np.allclose(a[0], a[1])
assert np.allclose(a[1], rfTRL(L=1e6, Z0TL=30).getS(1000.75))
"""),
s('c13-rlc-kept', 'C13', 'the same frequency asked again for another reference impedance', 'a lumped element answers a repeated frequency by the matrix it kept',
  [('rfRLC.py', "            self.f = f\n", "            seen, self.f = self.f, f\n            if self.S is not None and f == seen:\n                return np.array(self.S)\n")],
  """
import numpy as np
from pyRFtk import rfRLC
a = rfRLC(Rs=10, Ls=1e-7)
a.getS(4e7)
assert np.allclose(a.getS(4e7, Zbase=20), rfRLC(Rs=10, Ls=1e-7).getS(4e7, Zbase=20))
"""),
s('c10-rtl-from-attenuation', 'C10', 'an attenuation constant together with medium losses', 'the line resistance derived from an attenuation forgets a term of second order in the losses',
  [('resolveTLparams.py', "            D2 = (gwC ** 2 + 1) * (u2 + 1)\n", "            D2 = gwC ** 2 + u2 + 1\n")],
  """
import numpy as np
from pyRFtk.resolveTLparams import TLresolver
w = 2*np.pi*4e7
t = TLresolver(L=1., Z0TL=50., A=0.4, sigma=1e-2, OD=.2, epsr=1.)
g = np.sqrt(t.rjwL(w, 0) * t.gjwC(w, 0))
assert np.isclose(g.real, 0.4), g
"""),
s('c10-od-from-id', 'C10', 'inner diameter and impedance of a line filled with a dielectric', 'the outer diameter is the one of the line in vacuum',
  [('resolveTLparams.py', "return self.ID(w,x) * np.exp(self.Z0TL(w,x)/(eta0coax*self.etar(w,x)))", "return self.ID(w,x) * np.exp(self.Z0TL(w,x)/eta0coax)")],
  """
import numpy as np
from pyRFtk.resolveTLparams import TLresolver
t = TLresolver(L=1., Z0TL=30., ID=0.1, epsr=2.25, rho=1e-6)
w = 2*np.pi*4e7
Z = 59.958491 * np.log(t.OD(w, 0)/t.ID(w, 0)) / 1.5
assert np.isclose(Z, 30., rtol=1e-4), Z
"""),
s('c15-model-eval', 'C15', 'a model file holding an expression that is not a literal', 'the text of a model file is executed',
  [('rfGTL.py', "            self.model = ast.literal_eval(f.read())\n", "            self.model = eval(f.read())\n")],
  r"""
import os, tempfile
from pyRFtk import rfGTL
d = tempfile.mkdtemp()
fn, w = os.path.join(d, 'a.ciamod'), os.path.join(d, 'made')
open(fn, 'w').write("{'X': {'Portnames': ['p', 'q'], 'n': open(%r, 'w').close(), 'GTL': {'B': {'ports': ['p', 'q'], 'L': 1., 'Z': 50}}}}" % w)
try:
    rfGTL(fn, objkey='X')
except Exception:
    pass
assert not os.path.exists(w)
"""),
s('c18-deembed-message', 'C18', 'a deembedding given in a form that is not known', 'the refusal names nothing and fails on an unknown name',
  [('rfObject.py', "invalid deembed data for port {port}')", "invalid deembed data for port {portname}')")],
  r"""
import numpy as np
from pyRFtk import rfObject
o = rfObject(ports=['a', 'b'], Zbase=50)
o.setS(4e7, np.array([[.1, .2], [.2, .3]]))
try:
    o.deembed({'a': 'long'})
except ValueError as e:
    assert "a" in str(e)
else:
    assert False
"""),
s('c20-random-id', 'C20', 'the identity given to an object without a name', 'identities are drawn at random',
  [('config.py', "        _newID.N = 0\n    return f'{_newID.N}'\n", "        _newID.N = 0\n    return ''.join(random.choices('0123456789', k=6))\n"),
   ('config.py', "def _newID():\n", "import random\ndef _newID():\n")],
  r'''
import subprocess, sys
P = """
from pyRFtk import rfRLC, rfObject, rfCircuit
print(rfRLC(Ls=1e-9).Id, rfObject().Id, rfCircuit().Id)
"""
r = {subprocess.run([sys.executable, '-W', 'ignore', '-c', P], capture_output=True, text=True).stdout.split('\n')[-2] for _ in range(4)}
assert len(r) == 1, r
'''),
]
