#!/usr/bin/env python3
"""writes MANIFEST.json from the checks present and the list of properties not claimed"""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {
 'C22': 'a numeric bound (unitarity within rounding) of computed matrices over all component values: no static '
        'argument over the source bounds floating point error of np.linalg.inv; C08/C09 decide the exact algebra instead',
 'C23': 'accuracy of an adaptive numerical integrator (scipy) over unknown parameter profiles is a runtime quantity; '
        'the equations handed to the integrator are decided by C09/C10',
 'C24': 'that a parabolic refinement of a sampled profile reaches the true maximum is a statement about runtime '
        'sample values; no dataflow fact of the source bounds it',
 'C25': 'interpolation error depends on the tabulated data; nothing in the source bounds it',
 'C26': 'digits kept by a float format over all magnitudes is a numeric property of runtime values; the '
        'format/unit/impedance semantics is decided by C11',
}
TECH = {}
checks = []
na = []
for p in props:
    i = p['id']
    fn = f'{V}/sa/checks/{i.lower()}.py'
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(fn):
        m = importlib.import_module(f'sa.checks.{i.lower()}').META
        checks.append({'property': i, 'quick_cmd': f'python3 -m sa.run {i} --tier quick',
                       'thorough_cmd': f'python3 -m sa.run {i} --tier thorough',
                       'technique': m.get('technique', 'static analysis: flow and context sensitive abstract '
                                          'interpretation (dataflow, typestate, value numbering) over the syntax tree'),
                       'level': 'other',
                       'level_note': m.get('level_note', 'decided from the source without running it; sound for the '
                                           'listed rules up to the stated assumptions, not a proof of the whole '
                                           'property') })
    else:
        na.append({'property': i, 'reason': 'check under construction: not claimed yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q sa', 'checks': checks, 'not_applicable': na,
           'notes': 'pure static analysis of /repo/src/pyRFtk with the Python standard library; nothing of the '
                    'package is imported or run. See DESIGN.md.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
