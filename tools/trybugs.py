#!/usr/bin/env python3
"""run the check of each planted bug's property on a scratch copy with the bug: trybugs.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))

def one(i):
    t = tempfile.mkdtemp(prefix='bug')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', t + '/r'], check=True)
        subprocess.run(['git', 'apply', f'{V}/seeded/{i}/patch.diff'], cwd=t + '/r', check=True)
        p = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
        r = subprocess.run([sys.executable, '-m', 'sa.run', p], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, SA_REPO=t + '/r', SA_NOEVIDENCE='1'))
        first = [l for l in r.stdout.split('\n') if ': [' in l]
        return f'{"caught" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "?"} {i} ({p}) {first[0][:150] if first else ""}'
    finally:
        shutil.rmtree(t)

with ThreadPoolExecutor(4) as ex:
    for l in ex.map(one, ids):
        print(l, flush=True)
