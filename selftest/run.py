#!/usr/bin/env python3
"""Self test of the checks on edited copies of the source.

usage: selftest/run.py [C01 ...] [-v]
Each case in cases_*.py is (property, name, [(file, old, new)...], expect)
with expect 'bad' (the check must report) or 'quiet' (behaviour preserving: it
must not).  Works on a scratch copy of /repo/src below a temporary directory.
"""
import glob
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'


def load():
    out = []
    for fn in sorted(glob.glob(os.path.join(HERE, 'cases_*.py'))):
        sp = importlib.util.spec_from_file_location('m', fn)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out += m.CASES
    return out


def lenient(s, old):
    """find old ignoring blank lines and trailing blanks"""
    import re
    ls = [re.escape(x.rstrip()) for x in old.split('\n') if x.strip()]
    m = re.search(r'[ \t]*\n(?:[ \t]*\n)*'.join(ls), s)
    return m.group(0) if m else None


def one(case):
    prop, name, edits, expect = case
    d = tempfile.mkdtemp(prefix='selftest')
    try:
        os.makedirs(d + '/repo/src')
        shutil.copytree(REPO + '/src/pyRFtk', d + '/repo/src/pyRFtk', ignore=shutil.ignore_patterns('__pycache__'))
        for f, old, new in edits:
            p = f'{d}/repo/src/pyRFtk/{f}'
            s = open(p).read()
            if s.count(old) < 1:
                old = lenient(s, old)
            if not old:
                return name, 'STALE', f'{f}: text not found'
            s = s.replace(old, new, 1)
            compile(s, f, 'exec')
            open(p, 'w').write(s)
        res, txt = [], ''
        for pr in (prop if isinstance(prop, (list, tuple)) else [prop]):
            r = subprocess.run([sys.executable, '-m', 'sa.run', pr], cwd=VERIF, capture_output=True, text=True,
                               env=dict(os.environ, SA_REPO=d + '/repo', SA_NOEVIDENCE='1', SA_SERIAL='1'))
            res.append(r.returncode)
            txt += r.stdout + r.stderr
        if expect == 'bad':
            ok = 1 in res
        else:
            ok = all(x == 0 for x in res)
        return name, 'ok' if ok else 'FAIL', txt
    finally:
        shutil.rmtree(d)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    v = '-v' in sys.argv
    cases = [c for c in load() if not args or any(
        a == c[1] or a == c[0] or (isinstance(c[0], (list, tuple)) and a in c[0]) for a in args)]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for c, (name, st, txt) in zip(cases, ex.map(one, cases)):
            if st != 'ok' or v:
                bad += st != 'ok'
                print(f'{st:5s} {c[0]} {name} (expected {c[3]})')
                if v or st == 'STALE' or (c[3] == 'quiet'):
                    print('   ' + txt.replace('\n', '\n   '))
    print(f'{len(cases)} cases, {bad} not as expected')
    return bool(bad)


if __name__ == '__main__':
    sys.exit(main())
