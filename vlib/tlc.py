"""Run TLC and classify the outcome."""
import os
import re
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Result:
    def __init__(self):
        self.kind = 'error'    # ok | rejected | invariant | error | timeout
        self.states = 0
        self.distinct = 0
        self.out = ''
        self.last = {}
        self.wall = 0.0
        self.printed = []

    def __repr__(self):
        return '<TLC %s states=%d distinct=%d %.1fs>' % (self.kind, self.states, self.distinct, self.wall)


def run(module, cfg=None, env=None, workers=4, deadlock=True, simulate=None,
        depth=None, seed=None, timeout=600, heap='3g', extra=()):
    """deadlock=True: deadlock is an error (trace validation)."""
    r = Result()
    meta = tempfile.mkdtemp(prefix='verif-tlc-')
    cmd = ['java', '-Djava.io.tmpdir=' + meta, '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JARS,
           'tlc2.TLC', '-metadir', meta, '-workers', str(workers),
           '-config', os.path.join(SPEC, (cfg or module) + '.cfg'), '-noGenerateSpecTE']
    if not deadlock:
        cmd.append('-deadlock')
    if simulate is not None:
        cmd += ['-simulate', 'num=%d' % simulate]
    if depth is not None:
        cmd += ['-depth', str(depth)]
    if seed is not None:
        cmd += ['-seed', str(seed)]
    cmd += list(extra) + [os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, env=e, cwd=meta, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        rc = p.returncode
        r.out = p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as ex:
        r.out = (ex.stdout or b'').decode('utf-8', 'replace')
        r.kind = 'timeout'
        rc = None
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r.wall = time.time() - t0
    r.rc = rc
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.out)
    if m:
        r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
    else:
        m = re.findall(r'Progress[^\n]*: (?:[^\n]*?)([\d,]+) states (?:checked|generated)', r.out)
        if m:
            r.states = int(m[-1].replace(',', ''))
        m = re.findall(r'number of states generated: ([\d,]+)', r.out)
        if m:
            r.states = int(m[-1].replace(',', ''))
    if rc is None:
        return r
    if rc == 0:
        r.kind = 'ok'
    elif rc == 11:
        r.kind = 'rejected'
    elif rc in (12, 13):
        r.kind = 'invariant'
    else:
        r.kind = 'error'
    if r.kind in ('rejected', 'invariant'):
        blocks = re.split(r'\nState \d+:[^\n]*\n', r.out)
        if len(blocks) > 1:
            last = blocks[-1].split('\n\n')[0]
            for v in re.findall(r'^(?:/\\ )?(\w+) = (.*)$', last, re.M):
                r.last[v[0]] = v[1]
    return r
