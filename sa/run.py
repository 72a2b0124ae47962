import argparse
import sys
import os
import threading
from .core import main

if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        # the same order of everything in every run
        os.execve(sys.executable, [sys.executable, '-m', 'sa.run'] + sys.argv[1:],
                  dict(os.environ, PYTHONHASHSEED='0'))
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    rc = [2]

    def go():
        rc[0] = main(a.property, a.tier if a.tier in ('quick', 'thorough') else 'quick')
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0])
