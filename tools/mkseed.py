"""mkseed.py SPEC.py : development helper; a SPEC defines ID, PROP, NEEDS,
BREAKS, EDITS [(file, old, new)], DEMO (python source)."""
import sys, os, subprocess, json, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
S = f"/verif/seeded/{ns['ID']}"
os.makedirs(S, exist_ok=True)
C = f"/tmp/mkseed_{ns['ID']}"
subprocess.check_call(['git', 'clone', '-q', '/repo', C])
for f, old, new in ns['EDITS']:
    p = os.path.join(C, f); s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
d = subprocess.run(['git', '-C', C, 'diff'], capture_output=True, text=True).stdout
open(S + '/patch.diff', 'w').write(d)
open(S + '/demo.py', 'w').write(ns['DEMO'].lstrip())
open(S + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo; exit 0 iff the property holds in this scenario
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
export HOME="$work" PYTHONPATH=/repo MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export NIMBLE_TEST_WORK="$work"
cd "$work" && /opt/venv/bin/python -W ignore "$here/demo.py"
''')
json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
          open(S + '/meta.json', 'w'), indent=1)
shutil.rmtree(C)
print('made', S)
