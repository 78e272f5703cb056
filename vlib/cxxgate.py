"""Stands in for the compiler driver: runs the real one, writes the output the
way a linker does (removes, creates, writes in pieces), and stops at gates."""
import hashlib
import os
import subprocess
import sys
import time

ctl, me = os.environ['HV_CTL'], os.environ['HV_P']
gated = os.environ.get('HV_GATED') == '1'
args = sys.argv[1:]
os.environ['TMPDIR'] = ctl
n = 1
while True:
    try:
        os.close(os.open('%s/compile.%s.%d' % (ctl, me, n), os.O_CREAT | os.O_EXCL | os.O_WRONLY))
        break
    except FileExistsError:
        n += 1


def gate(g):
    if not gated:
        return
    open('%s/at.%s.%d.%s' % (ctl, me, n, g), 'w').close()
    go, t0 = '%s/go.%s.%d.%s' % (ctl, me, n, g), time.time()
    while not os.path.exists(go):
        if time.time() - t0 > 60:
            os._exit(99)
        time.sleep(.002)


gate('g1')
out = args[args.index('-o') + 1] if '-o' in args else None
if out is None:
    sys.exit(subprocess.call(['/usr/bin/c++'] + args))
src = b''
for a in args:
    if os.path.isfile(a):
        with open(a, 'rb') as f:
            src += f.read()
h = hashlib.md5(src).hexdigest()
memo = '%s/memo.%s' % (ctl, h)
if not os.path.exists(memo):
    mine = '%s/out.%s.%d.so' % (ctl, me, n)
    rest = list(args)
    rest[rest.index('-o') + 1] = mine
    rc = subprocess.call(['/usr/bin/c++'] + rest)
    if rc:
        sys.exit(1)
    os.rename(mine, memo)
with open(memo, 'rb') as f:
    data = f.read()
try:
    os.unlink(out)
except OSError:
    pass
fd = os.open(out, os.O_CREAT | os.O_TRUNC | os.O_WRONLY, 0o755)
half = len(data) // 2
os.write(fd, data[:half])
gate('g2')
os.write(fd, data[half:])
os.close(fd)
gate('g3')
sys.exit(0)
