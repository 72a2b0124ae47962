#!/usr/bin/env python3
"""dbgcase.py <case name> -> prints the path of a scratch repo with the case applied"""
import sys, os, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/selftest')
import run
for c in run.load():
    if c[1] == sys.argv[1] or f'{c[0]}/{c[1]}' == sys.argv[1]:
        d = f'/tmp/w/case/{c[1]}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + '/src')
        shutil.copytree('/repo/src/pyRFtk', d + '/src/pyRFtk', ignore=shutil.ignore_patterns('__pycache__'))
        for f, old, new in c[2]:
            p = f'{d}/src/pyRFtk/{f}'
            s = open(p).read()
            if old not in s:
                old = run.lenient(s, old)
            open(p, 'w').write(s.replace(old, new, 1))
        print(d)
