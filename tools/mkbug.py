#!/usr/bin/env python3
"""mkbug.py ID PROPERTY: reads edits from stdin (python: list of (file, old, new)),
demo body; writes seeded/ID.  Development helper, not used by any check."""
import json
import os
import shutil
import subprocess
import tempfile

VERIF = '/verif'


def mk(bid, prop, needs, breaks, edits, demo, extra=None):
    d = tempfile.mkdtemp(prefix='mkbug-', dir='/var/tmp')
    subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/r'])
    for f, old, new in edits:
        p = os.path.join(d, 'r', f)
        s = open(p).read()
        assert s.count(old) == 1, (bid, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', d + '/r', 'diff']).decode()
    out = os.path.join(VERIF, 'seeded', bid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    open(os.path.join(out, 'demo.py'), 'w').write(demo.lstrip('\n'))
    for n, c in (extra or {}).items():
        open(os.path.join(out, n), 'w').write(c)
    open(os.path.join(out, 'demo.sh'), 'w').write('''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export PYTHONPATH=/repo/_build/lib:/repo HOME=$scratch
# compiled integrands left by other runs would be used again
find /tmp -maxdepth 1 -type f -regextype posix-extended -regex '/tmp/[0-9]+\\.(cpp|so)' -delete
cd "$scratch" && timeout 250 /usr/bin/python3 "$here/demo.py" < /dev/null
''')
    shutil.rmtree(d)
