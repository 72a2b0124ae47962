#!/bin/bash
# run the stable tests against a copy of the repository: testcopy.sh <copy>
R="$1"
export HOME=/root MPLBACKEND=Agg MPLCONFIGDIR=/opt/vp/mplconfig PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 \
  PYTHONIOENCODING=utf-8 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$R/src"
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir "$W/tests"; ln -s "$R/src" "$W/src"; cd "$W/tests"
/opt/venv/bin/python -c "import pyRFtk,sys; sys.exit(not pyRFtk.__file__.startswith('$R/'))" || exit 3
/opt/venv/bin/python /opt/vp/run_sections.py "$R/tests/tests.py" > "$W/lines.txt" 2>&1
/opt/venv/bin/python /opt/vp/results.py "$W/out.json" "lines:$W/lines.txt" >/dev/null
/opt/venv/bin/python - "$W/out.json" <<'P'
import json, sys
d = json.load(open(sys.argv[1])); st = json.load(open('/opt/vp/BASELINE.json'))['stable']
ok = set(d.get('passed', d.get('pass', [])))
miss = [t for t in st if t not in ok]
if miss: print('FAILED', miss)
sys.exit(bool(miss))
P
