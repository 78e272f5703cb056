"""C18: real processes under schedules generated from the specification."""
import json
import os
import random
import re
import shutil
import signal
import tempfile
import time

from drivers.common import hermipy, ints, rng

ROUNDS = 1
TRACE = 'T_Intern'
MC = [('Intern', 'Intern'), ('Intern', 'InternLive')]
POOL_KW = {'case_timeout': 240, 'chunk': 2}
ASSUMPTIONS = ['processes are killed while the compiler runs (before, during and after writing its output) or between calls',
               'the 64-bit hash of the library is injective on the expressions used',
               'an incomplete entry that is already in the store is an empty or foreign file, not a library cut in the middle']
NODES = [-2, -1, 0, 1, 3]
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def schedules(num, seed):
    from vlib import tlc
    r = tlc.run('Intern', 'GenIntern', deadlock=False, simulate=num, depth=90, seed=seed, workers=1, timeout=200)
    if r.kind != 'ok':
        raise RuntimeError('TLC %s\n%s' % (r, r.out[-2000:]))
    seen, out = set(), []
    for line in r.out.split('\n'):
        if line.startswith('"HIST '):
            h = json.loads(json.loads(line)[5:])
            key = json.dumps(h[:-1])
            if key not in seen:
                seen.add(key)
                out.append(h)
    return out


# the schedules that matter most, spelled out
FIXED = [
    # both compile the same expression, interleaved in every order of the pieces
    ['s1', 's2', 'a1', 'a2', 'a1', 'a2', 'a1', 'a2'],
    ['s1', 's2', 'a1', 'a2', 'a2', 'a2', 'a1', 'a1'],
    ['s1', 's2', 'a1', 'a1', 'a2', 'a1', 'a2', 'a2'],
    ['s1', 's2', 'a1', 'a1', 'a1', 'a2', 'a2', 'a2'],
    ['s1', 's2', 'a1', 'a2', 'a2', 'a1', 'a1', 'a2'],
    ['s1', 's2', 'a2', 'a1', 'a1', 'a2', 'a1', 's3', 'a2'],
    # killed at every stage, then started again
    ['s1', 'k1', 's2', 'a2', 'a2', 'a2'],
    ['s1', 'a1', 'k1', 's2', 'a2', 'a2', 'a2', 's3'],
    ['s1', 'a1', 'a1', 'k1', 's2', 'a2', 'a2', 'a2', 's3'],
    ['s1', 's2', 'a1', 'k1', 'a2', 'a2', 'a2', 's3'],
    ['s1', 's2', 'a1', 'a1', 'k1', 'a2', 'a2', 'a2'],
    # the compiler of a killed process goes on
    ['s1', 'a1', 'o1', 's2', 'a2', 'a1', 'a2', 'a1', 'a2'],
    ['s1', 'o1', 's2', 'a2', 'a1', 'a2', 'a1', 'a1', 'a2', 's3'],
    ['s1', 'a1', 'a1', 'o1', 's2', 'a1', 'a2', 'a2', 'a2', 's3'],
    # a third looks while the first is halfway
    ['s1', 'a1', 's2', 'a1', 's3', 'a1', 'a2', 'a3', 'a2', 'a3', 'a2', 'a3'],
    ['s1', 'a1', 's2', 's3', 'a1', 'a1', 'a2', 'k2', 'a3', 'a3', 'a3'],
]


def cases(seed, tier, ctx):
    r = rng(seed, 'c18')
    out = []
    for h in schedules(40 if tier == 'quick' else 500, r.randint(1, 10 ** 6)):
        out.append({'t': 'sched', 'h': h, 'seed': r.randint(0, 10 ** 9)})
    for f in FIXED:
        h = [{'op': 'init', 'half': []}]
        for x in f:
            p = int(x[1])
            h.append({'s': {'op': 'start', 'p': p, 'e': 1}, 'a': {'op': 'adv', 'p': p},
                      'k': {'op': 'kill', 'p': p, 'how': 'all'}, 'o': {'op': 'kill', 'p': p, 'how': 'one'}}[x[0]])
        out.append({'t': 'sched', 'h': h, 'seed': r.randint(0, 10 ** 9)})
    fams = ['perm', 'prefix', 'suffix', 'middle', 'grow', 'space', 'sign', 'long']
    for f in fams:
        for _ in range(1 if tier == 'quick' else 6):
            out.append({'t': 'family', 'fam': f, 'seed': r.randint(0, 10 ** 9)})
    for _ in range(4 if tier == 'quick' else 30):
        out.append({'t': 'stress', 'n': 6, 'seed': r.randint(0, 10 ** 9)})
    return out


# ------------------------------------------------------------------ execution
def body(co, form=0):
    """Text of the polynomial; the form is one of several spellings."""
    t = ['(%d)' % co[0]] + ['(%d)%s' % (c, '*v[0]' * i) for i, c in enumerate(co) if i]
    if form == 1:
        t.reverse()
    return (' + ' if form == 2 else '+').join(t)


def fresh():
    """A constant no expression of an earlier run has: the store must not know the expressions yet."""
    return random.SystemRandom().randrange(10 ** 7, 10 ** 8)


def sample(hm, text):
    import hermipy.core as core
    v = core.discretize(text, [[float(x) for x in NODES]], [0.], [[1.]])
    return ints(v)


class Store:
    """A control directory, the gated compiler, and child processes."""

    def __init__(self, gated):
        self.ctl = tempfile.mkdtemp(prefix='ctl-', dir=os.environ['VERIF_SCRATCH'])
        os.mkdir(self.ctl + '/bin')
        with open(self.ctl + '/bin/c++', 'w') as f:
            f.write('#!/bin/sh\nexec /usr/bin/python3 -S %s/vlib/cxxgate.py "$@"\n' % VERIF)
        os.chmod(self.ctl + '/bin/c++', 0o755)
        shutil.copy(self.ctl + '/bin/c++', self.ctl + '/bin/g++')
        self.gated = gated
        self.n = 0
        self.groups = []
        self.before = set(os.listdir('/tmp'))

    def path(self, x):
        return os.path.join(self.ctl, x)

    def spawn(self, fn):
        """fn(say) in a child; say(event) is recorded.  Returns a handle."""
        self.n += 1
        name = 'p%d' % self.n
        pid = os.fork()
        if pid == 0:
            try:
                os.setsid()
                os.environ['PATH'] = self.ctl + '/bin:' + os.environ['PATH']
                os.environ.update(HV_CTL=self.ctl, HV_P=name, HV_GATED='1' if self.gated else '0')
                with open(self.path('say.' + name), 'w') as f:
                    def say(x):
                        f.write(json.dumps(x) + '\n')
                        f.flush()
                    try:
                        fn(say)
                    except Exception as e:
                        say({'raised': type(e).__name__ + ': ' + str(e)[:200]})
            finally:
                os._exit(0)
        h = {'name': name, 'pid': pid, 'alive': True, 'gate': (0, None), 'said': 0}
        self.groups.append(pid)
        return h

    def said(self, h):
        """Events not yet read."""
        try:
            with open(self.path('say.' + h['name'])) as f:
                lines = f.read().split('\n')[:-1]
        except OSError:
            lines = []
        new = [json.loads(x) for x in lines[h['said']:]]
        h['said'] = len(lines)
        return new

    def reap(self, h):
        if h['alive']:
            p, st = os.waitpid(h['pid'], os.WNOHANG)
            if p:
                h['alive'] = False
                h['st'] = st
        return not h['alive']

    def wait(self, h, timeout=60):
        """Until the process says something, stops at a gate or ends: ('gate', g), ('said', x), ('end', st)."""
        t0 = time.time()
        while True:
            ended = self.reap(h) if h['alive'] else True
            new = self.said(h)
            if new:
                return 'said', new[0]
            n, g = h['gate']
            for nn, gg in ((n, 'g1'), (n, 'g2'), (n, 'g3'), (n + 1, 'g1')):
                if (nn, gg) > (n, g or '') and os.path.exists(self.path('at.%s.%d.%s' % (h['name'], nn, gg))):
                    h['gate'] = (nn, gg)
                    return 'gate', gg
            if ended and h.get('orphan') is None:
                return 'end', h.get('st', 0)
            if time.time() - t0 > timeout:
                return 'hang', 0
            if h.get('orphan') and time.time() - t0 > 5:
                return 'end', 0
            time.sleep(.002)

    def release(self, h):
        n, g = h['gate']
        open(self.path('go.%s.%d.%s' % (h['name'], n, g)), 'w').close()

    def compiles(self, h):
        return len([f for f in os.listdir(self.ctl) if f.startswith('compile.%s.' % h['name'])])

    def new_libs(self):
        return sorted(f for f in set(os.listdir('/tmp')) - self.before if f.endswith('.so') and re.match(r'^[0-9]', f))

    def close(self):
        for g in self.groups:
            try:
                os.killpg(g, signal.SIGKILL)
            except OSError:
                pass
        for h in []:
            pass
        while True:
            try:
                p, _ = os.waitpid(-1, os.WNOHANG)
                if p == 0:
                    time.sleep(.005)
                    continue
            except ChildProcessError:
                break
        shutil.rmtree(self.ctl, ignore_errors=True)


def run(case):
    hm = hermipy()
    hm.settings['cache'] = False
    s = Store(case['t'] == 'sched')
    try:
        return globals()['r_' + case['t']](hm, case, s)
    finally:
        s.close()


def r_sched(hm, case, s):
    rr = random.Random(case['seed'])
    k = fresh()
    exprs = [[k, rr.randint(1, 9), rr.randint(1, 9)], [k, rr.randint(1, 9), rr.randint(10, 99)]]
    texts = [body(e) for e in exprs]
    tr = [{'op': 'begin', 'exprs': exprs, 'procs': 3}]
    half = [e for e in case['h'][0]['half'] if rr.random() < .7]
    for e in half:
        # where the entry is going to be: build it in a process of its own, then spoil it
        st0 = Store(False)
        try:
            h = st0.spawn(lambda say: say({'vals': sample(hm, texts[e - 1])}))
            st0.wait(h)
            libs = [f for f in st0.new_libs() if mine(f, st0, texts[e - 1])]
            for f in libs:
                p = '/tmp/' + f
                tmp = p + '.tmp%d' % os.getpid()
                with open(tmp, 'wb') as fd:
                    fd.write(rr.choice([b'', b'junk', b'\x7fELF']))
                os.rename(tmp, p)
        finally:
            st0.close()
        tr.append({'op': 'left', 'e': e})
    H = {}

    def after(p):
        h = H[p]
        kind, x = s.wait(h)
        orphan = h.get('orphan')
        if kind == 'said' and 'vals' in x:
            s.wait(h)     # let it end
            tr.append({'op': 'done', 'p': p, 'nodes': NODES, 'vals': x['vals']})
            del H[p]
        elif kind == 'gate':
            if x == 'g1' and not orphan:
                tr.append({'op': 'compile', 'p': p})
            elif x == 'g2':
                tr.append({'op': 'half', 'p': p})
            elif x == 'g3':
                tr.append({'op': 'full', 'p': p, 'e': h['e']})
        elif orphan:
            del H[p]
        else:
            tr.append({'op': 'failed', 'p': p, 'what': str((kind, x))[:200]})
            del H[p]

    for ev in case['h'][1:]:
        p = ev['p']
        if ev['op'] == 'start':
            if p in H:
                if not H[p].get('orphan'):
                    continue
                del H[p]
            text = texts[ev['e'] - 1]
            tr.append({'op': 'start', 'p': p, 'e': ev['e']})
            H[p] = s.spawn(lambda say: say({'vals': sample(hm, text)}))
            H[p]['e'] = ev['e']
            after(p)
        elif ev['op'] == 'adv' and p in H and H[p]['gate'][1]:
            s.release(H[p])
            after(p)
        elif ev['op'] == 'kill' and p in H and not H[p].get('orphan'):
            h = H[p]
            if ev['how'] == 'all':
                os.killpg(h['pid'], signal.SIGKILL)
                del H[p]
            else:
                os.kill(h['pid'], signal.SIGKILL)
                h['orphan'] = True
            while not s.reap(h):
                time.sleep(.002)
            tr.append({'op': 'kill', 'p': p})
    # whoever is left gets to the end
    for p in sorted(H):
        n = 0
        while p in H and n < 12:
            n += 1
            s.release(H[p])
            after(p)
        if p in H:
            tr.append({'op': 'failed', 'p': p, 'what': 'does not end'})
    # and whoever comes later finds the store in order
    for rnd in range(2):
        for e, text in enumerate(texts):
            tr.append({'op': 'start', 'p': 1, 'e': e + 1})
            H[1] = s.spawn(lambda say: say({'vals': sample(hm, text)}))
            H[1]['e'] = e + 1
            after(1)
            n = 0
            while 1 in H and n < 12:
                n += 1
                s.release(H[1])
                after(1)
            if 1 in H:
                tr.append({'op': 'failed', 'p': 1, 'what': 'does not end'})
                return tr
    return tr


def mine(f, st, text):
    """Whether a library in /tmp computes the polynomial (other sessions build theirs meanwhile)."""
    import ctypes
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            lib = ctypes.CDLL('/tmp/' + f)
            lib.toIntegrate.restype = ctypes.c_double
            ok = True
            for x in (0., 1., 2.):
                arr = (ctypes.c_double * 1)(x)
                ok = ok and abs(lib.toIntegrate(arr) - eval(text, {'v': [x]})) < 1e-9
            os.write(w, b'1' if ok else b'0')
        except BaseException:
            pass
        os._exit(0)
    os.close(w)
    os.waitpid(pid, 0)
    d = os.read(r, 1)
    os.close(r)
    return d == b'1'


def r_family(hm, case, s):
    """One process, many expressions that look alike; then others."""
    rr = random.Random(case['seed'])
    k = fresh()
    f = case['fam']
    pad = '0*v[0]+' * 60
    ex = []
    if f == 'perm':
        for a, b, c in ((1, 2, 3), (1, 3, 2), (2, 1, 3), (2, 3, 1), (3, 1, 2), (3, 2, 1)):
            ex.append(([a + 10 * k, b, c], body([a + 10 * k, b, c])))
        ex.append(([3 + 10 * k, 2, 1], body([3 + 10 * k, 2, 1], 1)))
    elif f == 'prefix':
        for c in range(1, 6):
            ex.append(([k, 0, c], pad + body([k, 0, c])))
    elif f == 'suffix':
        for c in range(1, 6):
            ex.append(([k, 0, c], '(%d)*v[0]*v[0]+' % c + pad + '(%d)' % k))
    elif f == 'middle':
        for c in range(1, 6):
            ex.append(([k, 0, c], pad + '(%d)*v[0]*v[0]+' % c + pad + '(%d)' % k))
    elif f == 'grow':
        t, co = '(%d)' % k, [k, 0, 0]
        ex.append((list(co), t))
        for i in range(5):
            j = rr.randrange(3)
            t += '+(1)' + '*v[0]' * j
            co[j] += 1
            ex.append((list(co), t))
    elif f == 'space':
        for form in (0, 1, 2):
            ex.append(([k, 4, 5], body([k, 4, 5], form)))
        ex.append(([k, 5, 4], body([k, 5, 4], 2)))
    elif f == 'sign':
        for a in (1, -1):
            for b in (2, -2):
                ex.append(([k, a, b], '%d%+d*v[0]%+d*v[0]*v[0]' % (k, a, b)))
    else:
        pad = '0*v[0]+' * 3000
        for c in range(1, 4):
            ex.append(([k, 0, c], pad + body([k, 0, c])))
    exprs = [e for e, _ in ex]
    seq = list(range(len(ex)))
    rr.shuffle(seq)
    seq = seq + [rr.choice(seq) for _ in range(12)]
    tr = [{'op': 'begin', 'exprs': exprs, 'procs': 1}]

    def work(say):
        name = os.environ['HV_P']
        for i in seq:
            n0 = len([x for x in os.listdir(s.ctl) if x.startswith('compile.%s.' % name)])
            v = sample(hm, ex[i][1])
            n1 = len([x for x in os.listdir(s.ctl) if x.startswith('compile.%s.' % name)])
            say({'i': i, 'n': n1 - n0, 'vals': v})

    for _ in range(2):
        h = s.spawn(work)
        left = len(seq)
        while left:
            if not s.reap(h):
                time.sleep(.01)
            new = s.said(h)
            for x in new:
                left -= 1
                if 'raised' in x:
                    return tr + [{'op': 'failed', 'what': x['raised']}]
                tr.append({'op': 'start', 'p': 1, 'e': x['i'] + 1})
                tr += [{'op': 'compile', 'p': 1}] * x['n']
                tr.append({'op': 'done', 'p': 1, 'nodes': NODES, 'vals': x['vals']})
            if not h['alive'] and not new:
                new = s.said(h)
                if not new and left:
                    return tr + [{'op': 'failed', 'what': 'process ended with %s' % h['st']}]
        while not s.reap(h):
            time.sleep(.005)
    return tr


def r_stress(hm, case, s):
    """Processes that start together, ungated, some killed at random times."""
    rr = random.Random(case['seed'])
    k = fresh()
    exprs = [[k, 1, 2], [k, 2, 1]]
    texts = [body(e) for e in exprs]
    tr = [{'op': 'begin', 'exprs': exprs, 'procs': 1}]
    hs = []
    for i in range(case['n']):
        e = rr.randrange(2)
        hs.append((e, s.spawn(lambda say: [say({'vals': sample(hm, texts[j])}) for j in (e, 1 - e)])))
    victims = rr.sample(hs, case['n'] // 3)
    for e, h in victims:
        time.sleep(rr.random() * .2)
        try:
            os.killpg(h['pid'], signal.SIGKILL)
        except OSError:
            pass
    for e, h in hs:
        t0 = time.time()
        while not s.reap(h) and time.time() - t0 < 60:
            time.sleep(.01)
        got = s.said(h)
        if (e, h) not in victims and len(got) != 2:
            tr.append({'op': 'failed', 'what': 'ended with %s' % h.get('st')})
        for i, x in enumerate(got):
            if 'vals' not in x:
                tr.append({'op': 'failed', 'what': x['raised']})
            else:
                tr.append({'op': 'free', 'e': (e if i == 0 else 1 - e) + 1, 'nodes': NODES, 'vals': x['vals']})
    for e in (0, 1):
        h = s.spawn(lambda say: say({'vals': sample(hm, texts[e])}))
        kind, x = s.wait(h)
        if kind == 'said' and 'vals' in x:
            tr.append({'op': 'free', 'e': e + 1, 'nodes': NODES, 'vals': x['vals']})
        else:
            tr.append({'op': 'failed', 'what': str(x)})
    return tr
