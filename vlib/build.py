"""Build hermite_cpp.so from /repo's current working tree, outside /repo.

The build directory is content addressed (sources + CMakeLists), so repeated
runs on the same tree reuse it; a changed tree is always rebuilt.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import time

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache', 'build')
L = '/usr/lib/x86_64-linux-gnu'


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    base = os.path.join(REPO, 'cpp')
    files = []
    for root, dirs, names in os.walk(base):
        dirs.sort()
        for n in sorted(names):
            files.append(os.path.join(root, n))
    for f in files:
        h.update(os.path.relpath(f, base).encode() + b'\0')
        try:
            with open(f, 'rb') as fd:
                h.update(fd.read())
        except OSError:
            pass
        h.update(b'\0')
    return h.hexdigest()[:24]


def build(log=None):
    """Returns the directory that contains hermite_cpp.so."""
    os.makedirs(CACHE, exist_ok=True)
    key = tree_hash()
    d = os.path.join(CACHE, key)
    lib = os.path.join(d, 'lib')
    with open(os.path.join(CACHE, key + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, 'OK')):
            os.utime(d)
            return lib
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        env = dict(os.environ, CC='gcc', CXX='g++', LC_ALL='C.UTF-8',
                   PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
        t0 = time.time()
        cm = ['cmake', '-S', os.path.join(REPO, 'cpp'), '-B', d, '-G', 'Ninja',
              '-Wno-dev', '-DCMAKE_BUILD_TYPE=release',
              '-DCMAKE_POLICY_VERSION_MINIMUM=3.5',
              '-DCMAKE_LIBRARY_OUTPUT_DIRECTORY=' + lib,
              '-DBoost_NO_BOOST_CMAKE=ON']
        for lib3, f in (('PYTHON3', 'python312'), ('NUMPY3', 'numpy312')):
            for kind in ('RELEASE', 'DEBUG'):
                cm.append('-DBoost_%s_LIBRARY_%s=%s/libboost_%s.so' % (lib3, kind, L, f))
        out = ''
        for cmd in (cm, ['ninja', '-C', d, 'hermite_cpp.so']):
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
            out += p.stdout.decode('utf-8', 'replace')
            if p.returncode != 0:
                # Fall back to the name of the target without suffix
                if cmd[0] == 'ninja':
                    p = subprocess.run(['ninja', '-C', d, 'hermite_cpp'], env=env,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                       stdin=subprocess.DEVNULL)
                    out += p.stdout.decode('utf-8', 'replace')
                    if p.returncode == 0:
                        continue
                raise BuildError(out[-4000:])
        if not glob.glob(os.path.join(lib, 'hermite_cpp*.so')):
            raise BuildError('no hermite_cpp.so produced\n' + out[-4000:])
        for o in glob.glob(os.path.join(d, 'CMakeFiles', '*.dir')):
            shutil.rmtree(o, ignore_errors=True)
        with open(os.path.join(d, 'OK'), 'w') as f:
            f.write('%.1f\n' % (time.time() - t0))
    prune(key)
    return lib


def prune(keep, n=6):
    ds = [x for x in glob.glob(os.path.join(CACHE, '*')) if os.path.isdir(x)]
    ds.sort(key=os.path.getmtime, reverse=True)
    for x in ds[n:]:
        if os.path.basename(x) != keep:
            shutil.rmtree(x, ignore_errors=True)


if __name__ == '__main__':
    t = time.time()
    print(build(), time.time() - t)
