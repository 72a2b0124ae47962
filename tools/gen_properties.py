#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after editing)."""
import json, os
S = 'src/pyRFtk/'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': [S + f for f in files],
         'mechanism': [{'name': n, 'where': S + w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': S + w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})

prop('C01', 'Circuit results always describe the circuit as it is now',
 'Whatever sequence of adding, replacing, connecting, terminating, de-embedding and re-parametrising blocks has '
 'happened (including calls that were rejected), every scattering matrix, node solution or maximum voltage asked from '
 'a circuit is the one of its present structure and block parameters. A result kept from an earlier evaluation is '
 'reused only when structure, block parameters, frequency, evaluation flags and call parameters are all unchanged.',
 ['histories', 'inputs'], 'all histories of builder / parameter / evaluation calls on a circuit, nested circuits included',
 'tests evaluate a freshly built circuit once or twice; a stale result needs a specific interleaving of evaluation and change',
 ['rfCircuit.py', 'rfBase.py', 'rfRLC.py', 'rfTRL.py'],
 [('reset of the stored S / inverse in every builder and in set()', 'rfCircuit.py'),
  ('guard of the stored S by frequency and flags in getS()', 'rfCircuit.py'),
  ('boolean "modified" result of every set()', 'rfBase.py')],
 [('S, invM, f, flags', 'last evaluation', 'rfCircuit.py'), ('M, blocks', 'structure', 'rfCircuit.py')],
 ['getS', 'Solution', 'maxV'])
prop('C02', 'Element and table results are never served from an outdated cache',
 'After any change of a transmission line, lumped element or frequency table (parameter set, table entry added or '
 'assigned, ports reordered, de-embedded, renormalised, file re-read) every later S-matrix, voltage profile or '
 'interpolated value is computed from the changed data. A memorised profile is only reused for the same frequency, '
 'the same excitation and the same reference impedance.',
 ['histories', 'inputs'], 'all interleavings of changes and evaluations of one element or table',
 'tests build an element and evaluate it; they do not interleave changes and evaluations',
 ['rfTRL.py', 'rfObject.py', 'rfRLC.py', 'rfBase.py', 'rfArcObj.py', 'rfCoupler.py'],
 [('per frequency solution store cleared by set()', 'rfTRL.py'), ('voltage profile memo keyed by excitation and impedance', 'rfTRL.py'),
  ('interpolator validity flag reset by table changes', 'rfObject.py')],
 [('solved', 'per frequency solutions', 'rfTRL.py'), ('interpOK/interpM/interpA', 'interpolators', 'rfObject.py')],
 ['getS', 'VISWs', 'maxV'])
prop('C03', 'Circuit unknowns, equations, ports and port positions stay in step',
 'After every completed circuit-building operation the circuit matrix has exactly one row per equation and one column '
 'per wave, every wave occurs as an incident/reflected pair, and every free external port has exactly one position. '
 'Internal or terminated ports are no longer external ones, and a port consumed by an operation disappears together '
 'with its own position.',
 ['histories', 'inputs'], 'all sequences of building operations, any number of ports and blocks',
 'a test checks a handful of topologies; misalignment shows only for particular port counts, orders or repeated operations',
 ['rfCircuit.py'],
 [('stacking of rows and columns in the builders', 'rfCircuit.py'), ('paired removal of port and position', 'rfCircuit.py')],
 [('M / eqns / waves / ports / xpos', 'parallel tables', 'rfCircuit.py')], ['len(circuit)', 'getS', 'maxV', 'str(circuit)'])
prop('C04', 'Library calls never modify the objects a caller passes in',
 'Dictionaries, lists and arrays passed by a caller as port maps, parameters, flags, excitations, frequencies, S-matrices or variables '
 'are the same after the call as before it, so one object can be reused for several calls. A default argument value '
 'keeps its initial value for the life of the process.',
 ['inputs', 'histories'], 'all mutable arguments of all public functions and methods',
 'tests pass literals that are used once; the damage is visible only when an argument object is reused',
 ['rfCircuit.py', 'rfBase.py', 'rfObject.py', 'rfTRL.py', 'rfRLC.py', 'rfGTL.py', 'ConvertGeneral.py', 'ReadTSF.py', 'WriteTSF.py', 'resolveTLparams.py', 'plotVSWs.py'],
 [('copying of keyword dictionaries before popping', 'rfBase.py'), ('copying of port lists and maps', 'rfCircuit.py')])
prop('C05', 'What a caller receives is independent of the library\'s internal state',
 'Changing in place an array, list or dictionary returned by an evaluation never changes the object it came from nor '
 'any later result. Likewise changing an argument after the call does not change the object that received it.',
 ['histories', 'inputs'], 'all values returned by public evaluation methods and all mutable values stored from arguments',
 'needs a mutation of a result followed by a second evaluation, which no test performs',
 ['rfCircuit.py', 'rfTRL.py', 'rfObject.py', 'rfBase.py', 'rfRLC.py', 'rfCoupler.py'],
 [('copying at the API boundary', 'rfTRL.py')], None, ['getS', 'solveVI', 'VISWs', 'maxV', 'Solution', 'iteration / indexing'])
prop('C06', 'A rejected change leaves the object exactly as it was',
 'When a building, parameter-setting, table-filling or de-embedding call is rejected because of its arguments (unknown port, parameter or '
 'block, wrong count, wrong type), the object behaves afterwards as if the call had never been made.',
 ['inputs', 'fault_sequences'], 'all invalid argument combinations of the state changing calls, on any earlier history',
 'tests hardly exercise rejection and never continue to use the object afterwards',
 ['rfCircuit.py', 'rfObject.py', 'rfTRL.py', 'rfRLC.py', 'rfBase.py'],
 [('validation before mutation in the builders', 'rfCircuit.py'), ('validation in set()', 'rfTRL.py')])
prop('C07', 'Network representation conversions follow one set of wave definitions',
 'Conversions between S, Z, Y and voltage/current matrices and between wave types and reference impedances are the ones '
 'implied by the documented definitions of incident and reflected waves: converting there and back is the identity, '
 'converting to the same type and impedance changes nothing, and all routes to one representation agree. Every '
 'evaluation returns waves referred to the impedance that was asked for, defaulting to the object\'s own.',
 ['inputs'], 'all matrices, impedances (scalar, per port, per frequency and port) and wave type pairs',
 'tests check a few numeric cases with real impedances and equal wave types',
 ['ConvertGeneral.py', 'S_from_Z.py', 'S_from_Y.py', 'Z_from_S.py', 'Y_from_S.py', 'S_from_VI.py', 'rfCircuit.py', 'rfTRL.py', 'rfObject.py', 'rfBase.py', 'rfRLC.py'],
 [('wave coefficient table per type', 'ConvertGeneral.py'), ('matrix formulas', 'S_from_Z.py'), ('argument order new impedance, matrix, old impedance', 'rfCircuit.py')])
prop('C08', 'Circuit solutions obey junction, termination and wave laws',
 'Connected ports obey Kirchhoff\'s laws for any number of ports, a terminated port sees exactly the given impedance, '
 'admittance or reflection coefficient, and the circuit matrix relates reflected to incident waves of the external ports in their declared order. '
 'Node voltages, currents and waves reported by the solution and maximum-voltage calls satisfy V=a+b and '
 'I=(a-b)/Z for the impedance they are expressed in.',
 ['inputs', 'histories'], 'any topology, number of ports, port order, base impedance and excitation',
 'tests fix topology, base impedance (equal on both sides) and excitation',
 ['rfCircuit.py', 'rfTRL.py', 'rfBase.py', 'rfRLC.py', 'rfObject.py'],
 [('ideal junction rows', 'rfCircuit.py'), ('reflection coefficient of a termination', 'rfCircuit.py'), ('external port elimination', 'rfCircuit.py'), ('excitation rescaling and node quantities', 'rfCircuit.py')])
prop('C09', 'Lumped and line elements obey their defining circuit equations',
 'The S-matrices of the series/shunt R-L-C element (including zero frequency and absent components), the arc inductance, the hybrid coupler '
 'and a uniform transmission line are those of the documented schematic for every frequency, component value and reference impedance.',
 ['inputs'], 'all frequencies (zero included), component values (zero and infinity included) and reference impedances',
 'tests sample a few values at one reference impedance and no zero-frequency case',
 ['rfRLC.py', 'rfArcObj.py', 'rfCoupler.py', 'rfTRL.py', 'S_from_VI.py'],
 [('element equations', 'rfRLC.py'), ('reflection coefficient of the arc', 'rfArcObj.py'), ('coupled line equations', 'rfCoupler.py'), ('telegraphist solution', 'rfTRL.py')])
prop('C10', 'Derived transmission-line parameters satisfy their defining relations',
 'Whatever subset of line parameters is supplied, each parameter derived from others satisfies the same physical relation as every other '
 'derivation of it, uses exactly the parameters it is declared to be derived from and is marked as frequency- or '
 'position-dependent whenever its value is.',
 ['inputs', 'configurations'], 'all admissible subsets of supplied parameters, all values, frequencies and positions',
 'the number of subsets is combinatorial; tests use a handful of parameter sets',
 ['resolveTLparams.py', 'rfTRL.py'],
 [('equation list with declared inputs', 'resolveTLparams.py'), ('propagation of the dependence marks', 'resolveTLparams.py')])
prop('C11', 'Touchstone text means the same to every reader and writer',
 'The number format, frequency unit, reference impedance and port names in force when a Touchstone text is written are '
 'the ones stated in its option line and comments, and the reader interprets every admissible option line by the '
 'inverse rule of the writers. Defaults applied to omitted options are the same on both sides.',
 ['inputs'], 'all option lines, frequency units, number formats, port counts and reference impedances',
 'tests round-trip one format and unit',
 ['rfBase.py', 'WriteTSF.py', 'ReadTSF.py', 'config.py'],
 [('option line parsing', 'ReadTSF.py'), ('element formatting per format', 'rfBase.py'), ('frequency scaling', 'WriteTSF.py')])
prop('C12', 'Output shape follows input shape',
 'A conversion returns a value of the same rank as its input (scalar, vector, matrix or stack of matrices), and an S-matrix '
 'evaluation returns a single matrix for a single frequency and a stack, in order, of as many matrices as frequencies '
 'for a sequence, for every kind of object.',
 ['inputs'], 'all documented input ranks and all objects offering S-matrix evaluation',
 'tests use one rank per function',
 ['_check_3D_shape_.py', 'ConvertGeneral.py', 'S_from_Z.py', 'S_from_Y.py', 'Z_from_S.py', 'Y_from_S.py', 'rfCircuit.py', 'rfTRL.py', 'rfObject.py', 'rfBase.py', 'rfRLC.py'],
 [('rank normalisation and restoration', '_check_3D_shape_.py'), ('scalar/sequence branch of getS', 'rfTRL.py')])
prop('C13', 'A frequency sweep equals its points evaluated one by one',
 'The result at each frequency of a sweep depends on that frequency and the present element parameters only, never on '
 'which frequencies were evaluated before it, how often, or in which order.',
 ['inputs', 'histories'], 'all frequency sequences (unordered, repeated, single) and all earlier evaluation histories',
 'tests evaluate sorted sweeps once',
 ['rfCircuit.py', 'rfTRL.py', 'rfObject.py', 'rfBase.py', 'rfRLC.py', 'rfArcObj.py', 'rfCoupler.py', 'ConvertGeneral.py'],
 [('per frequency inner function', 'rfTRL.py')])
prop('C14', 'Diagnostics never influence results and never fail',
 'Turning logging on or off, at any level, changes neither any returned value nor any object state, and no diagnostic output can itself raise an '
 'error for arguments that are otherwise accepted.',
 ['configurations', 'inputs'], 'all log levels and all public calls',
 'the tests run at one log level',
 ['config.py', 'rfCircuit.py', 'rfTRL.py', 'rfObject.py', 'rfBase.py', 'rfRLC.py', 'rfGTL.py', 'ReadTSF.py', 'ConvertGeneral.py', 'maxfun.py', 'plotVSWs.py'],
 [('diagnostics guarded by the debug switch', 'rfCircuit.py'), ('log helpers', 'config.py')])
prop('C15', 'Only explicit writers touch the file system; data files are never run as code',
 'The package writes only to paths the caller gave to an explicit write call and to its own log, opens everything else for reading, '
 'removes nothing but its own empty log, starts no process and opens no connection. Model and data files are parsed as data; expressions are '
 'evaluated only where the model format defines them.',
 ['inputs', 'histories'], 'all call paths of the package, import and interpreter exit included',
 'absence of an effect on all paths cannot be sampled',
 ['config.py', 'rfBase.py', 'WriteTSF.py', 'ReadDictData.py', 'getlines.py', 'findpath.py', 'rfGTL.py', 'ReadTSF.py'],
 [('log clean-up at exit', 'config.py'), ('literal parser', 'ReadDictData.py')])
prop('C16', 'Every RF object can serve as a circuit block',
 'Each kind of RF object offers, with the arguments a circuit passes and the results a circuit uses, its port names, port positions, size, '
 'S-matrix evaluation, copying and maximum-voltage evaluation, so any of them can be placed, replaced and '
 'evaluated in any circuit. Maximum-voltage results are real magnitudes with a place and a (positions, values) profile that the plot and scale helpers accept.',
 ['programs', 'inputs'], 'all object kinds in all block positions',
 'tests place only a few kinds in circuits',
 ['rfCircuit.py', 'rfTRL.py', 'rfObject.py', 'rfBase.py', 'rfRLC.py', 'rfArcObj.py', 'rfCoupler.py', 'rfGTL.py', 'plotVSWs.py'],
 [('block calls of the circuit', 'rfCircuit.py'), ('maxV of each object', 'rfBase.py')])
prop('C17', 'Copies and pickles are complete and independent',
 'A copy (shallow, deep or by method) or a pickled and restored object has all the data of the original, gives the same results, and shares '
 'no mutable state with it: changing either leaves the other unchanged.',
 ['histories', 'inputs'], 'all object kinds at any point of their history',
 'needs copying in an arbitrary state followed by a mutation of one side',
 ['rfCircuit.py', 'rfTRL.py', 'rfObject.py', 'rfBase.py', 'rfRLC.py', 'rfGTL.py'],
 [('__deepcopy__ of each class', 'rfBase.py'), ('__getstate__/__setstate__', 'rfObject.py')])
prop('C18', 'No operation dies of an unresolved name, attribute or keyword',
 'No reachable statement of the package refers to a name, module attribute, object attribute, local variable or keyword that is not defined '
 'when it is reached, and no keyword the package passes to itself is silently dropped.',
 ['inputs', 'configurations'], 'all statements of the package, rarely executed branches included',
 'rarely taken branches (zero frequency, warnings, error reports) are not executed by tests',
 ['rfCircuit.py', 'rfTRL.py', 'rfObject.py', 'rfBase.py', 'rfRLC.py', 'rfGTL.py', 'ReadTSF.py', 'WriteTSF.py', 'resolveTLparams.py', 'config.py'],
 [('name binding', 'rfRLC.py'), ('keyword consumption of the constructors', 'rfObject.py')])
prop('C19', 'Invalid input is reported by the documented error, never masked',
 'When an argument is invalid the caller gets the exception type the package raises for that case with its message; building the message or '
 'handling the failure never raises a different error, and an error of an inner call is never swallowed and replaced by a wrong result.',
 ['inputs'], 'all explicit rejections and all exception handlers of the package',
 'error branches are hardly executed by tests',
 ['rfCircuit.py', 'rfTRL.py', 'rfObject.py', 'rfBase.py', 'rfRLC.py', 'ConvertGeneral.py', '_check_3D_shape_.py', 'ReadTSF.py', 'WriteTSF.py', 'findpath.py', 'ReadDictData.py'],
 [('raise statements', 'rfCircuit.py'), ('exception handlers', 'rfCircuit.py')])
prop('C20', 'Results and files depend on the inputs only',
 'The same calls with the same inputs give the same values, port orders and file contents in every process: nothing depends on hash order, '
 'time, random numbers, directory listing order or environment, except the dated comment line of written files and file searches.',
 ['configurations', 'inputs'], 'all processes, hash seeds and platforms',
 'a test run sees one hash seed and one environment',
 ['rfBase.py', 'WriteTSF.py', 'rfCircuit.py', 'findpath.py', 'config.py', 'rfGTL.py'],
 [('ordered containers', 'rfBase.py'), ('sorted file matches', 'findpath.py')])
prop('C21', 'Model files are converted to SI units exactly once and fully',
 'Every dimensional quantity given in a model file reaches the corresponding block in SI units, converted exactly once by the '
 'unit prefix the model format documents, and every model keyword ends up in the block parameter it names.',
 ['inputs'], 'all model files, keywords and scalar or list values',
 'tests read one model',
 ['rfGTL.py'], [('unit table and conversion loop', 'rfGTL.py'), ('keyword remapping', 'rfGTL.py')])
prop('C22', 'Passive networks conserve energy numerically',
 'For passive lossless elements the computed S-matrices are unitary and for passive lossy ones contractive, within rounding, at every frequency.',
 ['inputs'], 'all passive circuits and frequencies', 'a numeric bound over all inputs cannot be sampled exhaustively',
 ['rfCircuit.py', 'rfTRL.py', 'rfRLC.py'], [('matrix inversion', 'rfCircuit.py')])
prop('C23', 'Non-uniform lines are integrated to the requested accuracy',
 'The voltage/current profile and S-matrix of a line with varying parameters are within the requested tolerance of the exact solution of the telegraphist\'s equation.',
 ['inputs'], 'all parameter profiles and tolerances', 'tests compare one profile',
 ['rfTRL.py'], [('ODE integration', 'rfTRL.py')])
prop('C24', 'The reported maximum voltage is the true maximum of the profile',
 'The maximum voltage reported for an object is not lower than the voltage anywhere inside it and is attained at the reported place.',
 ['inputs'], 'all profiles and excitations', 'tests check two profiles',
 ['maxfun.py', 'rfTRL.py', 'rfCircuit.py'], [('parabolic refinement', 'maxfun.py')])
prop('C25', 'Table interpolation stays close to the sampled network',
 'Between the tabulated frequencies the interpolated S-matrix stays within a bound set by the spacing and smoothness of the data, for each interpolation kind.',
 ['inputs'], 'all tables and frequencies', 'tests check a few points',
 ['rfObject.py'], [('interpolation', 'rfObject.py')])
prop('C26', 'Written Touchstone numbers keep the announced precision',
 'Reading back a written Touchstone file reproduces frequencies and coefficients to the number of digits written, for all magnitudes.',
 ['inputs'], 'all magnitudes and frequency grids', 'tests check one grid',
 ['rfBase.py', 'WriteTSF.py'], [('number formats', 'rfBase.py')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
