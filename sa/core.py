"""Common frame of all checks: obligations, findings, evidence, exit status."""
import json
import os
import pickle
import sys
import time
import traceback

from .loader import Package

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    """collects what a property's rules decided on the present source"""

    def __init__(self, pid, pkg, tier):
        self.pid, self.pkg, self.tier = pid, pkg, tier
        self.discharged = {}      # rule -> [construct]
        self.violations = {}      # key -> dict
        self.undecided = []       # (rule, construct, why)
        self.analysed = set()     # functions looked at
        self.missing = []         # anchors that vanished
        self.notes = {}

    # -- results of a rule on one construct
    def ok(self, rule, construct, where=''):
        self.discharged.setdefault(rule, []).append(f'{construct} [{where}]' if where else construct)

    def bad(self, rule, construct, where, msg, path=()):
        key = f'{rule}|{construct}'
        if key not in self.violations:
            self.violations[key] = {'key': key, 'rule': rule, 'construct': construct, 'where': where,
                                    'message': msg, 'path': [str(p) for p in path]}

    def open(self, rule, construct, why):
        self.undecided.append((rule, construct, why))

    def anchor(self, name, present):
        if not present:
            self.missing.append(name)
        return present

    def saw(self, func):
        self.analysed.add(func if isinstance(func, str) else f'{func.qual} ({func.where})')

    def rule(self, name, fn, *a):
        """run one rule; an analysis that fails on unforeseen source is
        recorded as undecided"""
        try:
            return fn(self, *a)
        except Exception as e:        # noqa
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.open(name, ' '.join(str(x) for x in a), f'analysis gave up: {type(e).__name__}: {e} '
                      f'({os.path.basename(tb.filename)}:{tb.lineno})')
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            return None

    def pmap(self, name, fn, items, nproc=8):
        """run one rule on many constructs in forked worker processes"""
        items = list(items)
        nproc = min(nproc, os.cpu_count() or 1, len(items))
        if nproc < 2 or os.environ.get('SA_SERIAL'):
            for it in items:
                self.rule(name, fn, *it)
            return
        # the parent hands out indices through a pipe so that a slow item does
        # not hold up the others
        jr, jw = os.pipe()
        pids = []
        for w in range(nproc):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    os.close(jw)
                    sub = Check(self.pid, self.pkg, self.tier)
                    while True:
                        b = os.read(jr, 4)
                        if len(b) < 4:
                            break
                        sub.rule(name, fn, *items[int.from_bytes(b, 'little')])
                    with os.fdopen(wr, 'wb') as f:
                        pickle.dump((sub.discharged, sub.violations, sub.undecided, sub.analysed, sub.missing,
                                     sub.notes), f)
                    code = 0
                except BaseException:       # noqa
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(wr)
            pids.append((pid, r))
        os.close(jr)
        os.write(jw, b''.join(i.to_bytes(4, 'little') for i in range(len(items))))
        os.close(jw)
        for pid, r in pids:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            _, status = os.waitpid(pid, 0)
            if status or not data:
                self.open(name, 'worker', f'a worker process failed (status {status})')
                continue
            d, v, u, a, m, n = pickle.loads(data)
            for k, x in d.items():
                self.discharged.setdefault(k, []).extend(x)
            for k, x in v.items():
                self.violations.setdefault(k, x)
            self.undecided += u
            self.analysed |= a
            self.missing += m
            for k, x in n.items():
                if isinstance(x, dict):
                    self.notes.setdefault(k, {}).update(x)
                elif isinstance(x, list):
                    self.notes.setdefault(k, []).extend(x)
                else:
                    self.notes[k] = x
        for x in self.discharged.values():
            x.sort()
        self.undecided.sort()

    @property
    def count(self):
        return sum(len(v) for v in self.discharged.values()) + len(self.violations)


def load_known():
    """known-findings.txt: one `open: property=<id> key=<rule|construct> :: <text>`
    or `fixed: property=<id> <commit> <text>` per line"""
    out = []
    fn = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(fn):
        with open(fn) as f:
            for line in f:
                line = line.strip()
                if line.startswith('open: property='):
                    rest = line[len('open: property='):]
                    pid, rest = rest.split(' ', 1)
                    key, _, text = rest.partition(' :: ')
                    out.append((pid, key[len('key='):], text))
    return out


def finish(ck, t0, meta, seed):
    known = {k: txt for p, k, txt in load_known() if p == ck.pid}
    listed = {k: v for k, v in ck.violations.items() if k in known}
    fresh = {k: v for k, v in ck.violations.items() if k not in known}
    for k in sorted(listed):
        print(f'KNOWN-FINDING: property={ck.pid} {known[k]} [{k}] at {listed[k]["where"]}')
    for r, c, w in ck.undecided:
        print(f'UNDECIDED property={ck.pid} rule={r} {c}: {w}')
    nd = sum(len(v) for v in ck.discharged.values())
    cov = {
        'explanation': meta['explanation'],
        'rules': meta.get('rules', {}),
        'obligations': nd + len(ck.violations) + len(ck.undecided),
        'discharged': nd,
        'undecided': [{'rule': r, 'construct': c, 'why': w} for r, c, w in ck.undecided],
        'known_findings': sorted(listed),
        'instances_per_rule': {r: len(v) for r, v in sorted(ck.discharged.items())},
        'functions_analysed': len(ck.analysed),
        'functions': sorted(ck.analysed),
        'samples': [f'{r}: {v[0]}' for r, v in sorted(ck.discharged.items()) if v][:40],
        'source': sorted(m.rel for m in ck.pkg.live_modules()),
    }
    cov.update(ck.notes)
    ev = {'property': ck.pid, 'tier': ck.tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': meta.get('assumptions', []), 'wall_s': round(time.time() - t0, 3),
          'violations': len(fresh)}
    ed = os.path.join(VERIF, 'evidence')
    if os.environ.get('SA_NOEVIDENCE'):
        ed = os.path.join('/tmp', f'sa-evidence-{os.getpid()}')
    os.makedirs(ed, exist_ok=True)
    with open(os.path.join(ed, f'{ck.pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    if os.environ.get('SA_NOEVIDENCE'):
        import shutil
        shutil.rmtree(ed)
        os.makedirs(ed)
    if fresh:
        rp = os.path.join('evidence', f'{ck.pid}.replay.json')
        with open(os.path.join(ed, f'{ck.pid}.replay.json'), 'w') as f:
            json.dump({'property': ck.pid, 'rerun': f'python3 -m sa.run {ck.pid}',
                       'violations': [fresh[k] for k in sorted(fresh)]}, f, indent=1)
            f.write('\n')
        if os.environ.get('SA_NOEVIDENCE'):
            shutil.rmtree(ed)
        for k in sorted(fresh):
            v = fresh[k]
            print(f'{v["where"]}: [{v["rule"]}] {v["construct"]}: {v["message"]}')
            for p in v['path']:
                print(f'    via {p}')
        print(f'VIOLATION property={ck.pid} replay={rp}')
        return 1
    if os.environ.get('SA_NOEVIDENCE'):
        shutil.rmtree(ed, ignore_errors=True)
    if ck.missing:
        print(f'ERROR property={ck.pid}: anchors not found: {", ".join(ck.missing)}')
        return 2
    if ck.count == 0:
        print(f'ERROR property={ck.pid}: nothing was decided')
        return 2
    print(f'OK property={ck.pid} obligations={cov["obligations"]} discharged={nd} '
          f'undecided={len(ck.undecided)} known={len(listed)} functions={len(ck.analysed)} '
          f'wall={ev["wall_s"]}s')
    return 0


def main(pid, tier):
    import importlib
    sys.setrecursionlimit(20000)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module(f'sa.checks.{pid.lower()}')
    pkg = Package()
    ck = Check(pid, pkg, tier)
    mod.run(ck)
    return finish(ck, t0, mod.META, seed)
