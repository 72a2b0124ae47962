#!/usr/bin/env python3
"""make /verif/seeded/<id> from a spec file: a python file defining
ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text).
Confirms: patch applies, changed lines are original ones, stable tests pass with
it, demo passes without and fails with it."""
import types, importlib.util, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'bfa93fb'
SH = '''#!/bin/bash
# run in the repository root: exit 0 when the behaviour is right
d="$(cd "$(dirname "$0")" && pwd)"
r="$PWD"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
cd "$t"
PYTHONPATH="$r/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -W ignore "$d/demo.py"
'''

def demo(d, cwd):
    r = subprocess.run(['bash', d + '/demo.sh'], cwd=cwd, capture_output=True, text=True, timeout=280)
    return r.returncode, (r.stdout + r.stderr)[-600:]

def specs(spec):
    sp = importlib.util.spec_from_file_location('s', spec)
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    return [types.SimpleNamespace(**x) for x in m.SPECS] if hasattr(m, 'SPECS') else [m]

def build(m, tests=True):
    d = f'{V}/seeded/{m.ID}'
    t = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', t + '/r'], check=True)
        r = t + '/r'
        for f, old, new in m.EDITS:
            p = f'{r}/src/pyRFtk/{f}'
            s = open(p).read()
            assert s.count(old) == 1, (m.ID, f, s.count(old), old)
            # every removed line is an original one
            open(p, 'w').write(s.replace(old, new))
            compile(open(p).read(), p, 'exec')
        diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
        # lines removed must be from BASE
        for f in {e[0] for e in m.EDITS}:
            bl = subprocess.run(['git', 'blame', '-s', 'HEAD', '--', f'src/pyRFtk/{f}'], cwd=r, capture_output=True, text=True).stdout.split('\n')
            cur = None
            rel = []
            for line in subprocess.run(['git', 'diff', '-U0', '--', f'src/pyRFtk/{f}'], cwd=r, capture_output=True, text=True).stdout.split('\n'):
                if line.startswith('@@'):
                    a = line.split()[1][1:].split(',')
                    n0, cnt = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    rel += range(n0, n0 + cnt)
            orig = [bl[k - 1].startswith('^' + BASE) for k in rel]
            if not any(orig):
                print(m.ID, 'WARNING: changes no original line of', f)
            elif not all(orig):
                print(m.ID, 'note: also changes lines of a fix commit in', f)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(SH)
        open(d + '/demo.py', 'w').write(m.DEMO)
        json.dump({'property': m.PROPERTY, 'needs': m.NEEDS, 'what_it_breaks': m.BREAKS}, open(d + '/meta.json', 'w'), indent=1)
        a = demo(d, '/repo')
        b = demo(d, r)
        ok = a[0] == 0 and b[0] != 0
        tt = '-'
        if tests and ok:
            # the stable tests against the changed tree (scratch copy)
            tr = subprocess.run(['bash', V + '/tools/testcopy.sh', r], capture_output=True, text=True)
            tt = tr.returncode
            ok = ok and tr.returncode == 0
        print(m.ID, 'OK' if ok else 'NOT OK', 'clean', a[0], 'patched', b[0], 'tests', tt)
        if not ok:
            print(a, b)
    finally:
        shutil.rmtree(t)
    return ok

from concurrent.futures import ThreadPoolExecutor
only = [a for a in sys.argv[1:] if not a.endswith('.py')]
ms = [m for s in sys.argv[1:] if s.endswith('.py') for m in specs(s) if not only or m.ID in only]
with ThreadPoolExecutor(6) as ex:
    list(ex.map(build, ms))
