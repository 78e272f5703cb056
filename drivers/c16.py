"""C16: the result cache under histories generated from the specification."""
import json
import os
import random
import shutil
import subprocess
import sys

from drivers import cachelib as cl
from drivers.common import hermipy, rng

TRACE = 'T_Cache'
MC = [('MC_Cache', 'MC_Cache')]
ASSUMPTIONS = ['entries are files of the cache directory that a call writes',
               'dictionaries compared as ordered sequences of items']


def cases(seed, tier, ctx):
    r = rng(seed, 'c16')
    out = []
    num = 120 if tier == 'quick' else 1500
    for i, h in enumerate(cl.histories('GenCache', num, r.randint(1, 10 ** 6))):
        out.append({'t': 'hist', 'h': h, 'kind': (cl.KINDS + cl.LOOSE)[i % (len(cl.KINDS) + len(cl.LOOSE))],
                    'quiet': int(i % 5 == 4), 'mode': ['args', 'args', 'inplace', 'dirs', 'names'][(i // 2) % 5],
                    'seed': r.randint(0, 10 ** 9)})
    for kind in ('int', 'mat', 'csr'):
        out.append({'t': 'pool', 'kind': kind, 'dup': 0, 'use': 'n'})
    out.append({'t': 'pool', 'kind': 'float', 'dup': 1, 'use': 't'})
    out.append({'t': 'names'})
    out.append({'t': 'proc'})
    for how in ('fortran', 'strided', 'reversed', 'readonly'):
        out.append({'t': 'layout', 'how': how})
    for i in range(8 if tier == 'quick' else 60):
        out.append({'t': 'real', 'seed': r.randint(0, 10 ** 9), 'len': 60})
    for i in range(3 if tier == 'quick' else 20):
        out.append({'t': 'solve', 'seed': r.randint(0, 10 ** 9)})
    return out


def run(case):
    hm = hermipy()
    dirs = [cl.newdir(), cl.newdir()]
    try:
        return globals()['r_' + case['t']](hm, case, dirs)
    finally:
        hm.settings['cache'] = False
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)


def r_hist(hm, case, dirs):
    import numpy as np
    rr = random.Random(case['seed'])
    mode = case['mode']
    keys = sorted({e['k'] for e in case['h'] if 'k' in e} | {1, 2, 3, 4})
    R = cl.Recorder(hm, dirs, case['kind'], bool(case['quiet']), n=max(keys), on=case['h'][0]['on'], names=4)
    pool = cl.pool()
    if mode == 'inplace':
        base = np.zeros((3, 4))
        forms = {}
        for k in keys:
            a = np.arange(12.).reshape(3, 4)
            a[rr.randrange(3), rr.randrange(4)] += k
            forms[k] = a
    else:
        pick = {k: pool[rr.randrange(len(pool))] for k in keys}
        idx = rr.sample(range(len(pool)), len(keys))
        pick = {k: pool[i] for k, i in zip(keys, idx)}
    raised = set()
    for e in case['h'][1:]:
        if e['op'] == 'set':
            R.setting(e['on'])
        elif e['op'] == 'change':
            R.change(e['k'])
        elif e['op'] == 'call':
            k, fun = e['k'], 0
            if mode == 'inplace':
                base[...] = forms[k]
                args, kw = (base,), {}
            elif mode == 'dirs':      # same arguments, other directory
                R.use_dir((k - 1) % 2)
                args, kw = pick[keys[(k - 1) // 2]]
            elif mode == 'names':     # same arguments, other function
                fun = (k - 1) % 4
                args, kw = pick[keys[0]]
            else:
                args, kw = pick[k]
            if rr.random() < .12:
                R.fail = True
                R.call(k, args, kw, e['use'], fun)
                R.fail = False
            R.call(k, args, kw, e['use'], fun)
            if mode == 'inplace':     # the argument was left alone
                R.tr.append({'op': 'same', 'a': [int(v * 8) for v in base.ravel()], 'b': [int(v * 8) for v in forms[k].ravel()]})
    return R.tr


def r_pool(hm, case, dirs):
    pool = cl.pool()
    R = cl.Recorder(hm, dirs[:1], case['kind'], n=len(pool), on=case['use'] == 'n')
    for rnd in range(2):
        for i, (a, kw) in enumerate(pool):
            R.call(i + 1, a, kw, case['use'])
    if case['dup']:
        for i, (a, kw) in enumerate(pool):
            R.call(i + 1, a, kw, 'f')
    return R.tr


def r_names(hm, case, dirs):
    pool = cl.pool()[::9]
    n = len(pool)
    R = cl.Recorder(hm, dirs[:1], 'int', n=4 * n, on=True, names=4)
    for rnd in range(2):
        for fun in range(4):
            for i, (a, kw) in enumerate(pool):
                R.call(fun * n + i + 1, a, kw, fun=fun)
    return R.tr


def r_layout(hm, case, dirs):
    pool = cl.pool()
    R = cl.Recorder(hm, dirs[:1], 'int', n=len(pool), on=True)
    for i, c in enumerate(pool):
        R.call(i + 1, *c)
    for i, c in enumerate(pool):
        a, kw = cl.relaid(c, case['how'])
        R.call(i + 1, a, kw)
    return R.tr


def r_proc(hm, case, dirs):
    """The same calls in another process, with another seed of Python's hash."""
    pool = cl.pool()
    R = cl.Recorder(hm, dirs[:1], 'float', n=len(pool), on=True)
    for i, c in enumerate(pool):
        if i % 7:
            R.call(i + 1, *c)
    code = ('import sys, json; sys.path.insert(0, %r); from drivers import c16; c16.child(%r)'
            % (os.path.dirname(os.path.dirname(os.path.abspath(__file__))), dirs[0]))
    env = dict(os.environ, PYTHONHASHSEED='4711')
    p = subprocess.run([sys.executable, '-c', code], env=env, stdout=subprocess.PIPE, timeout=100)
    for line in p.stdout.decode().split('\n'):
        if line.startswith('EVENTS '):
            R.tr += json.loads(line[7:])[1:]
            return R.tr
    return R.tr + [{'op': 'childfailed'}]


def child(d):
    hm = hermipy()
    pool = cl.pool()
    R = cl.Recorder(hm, [d], 'float', n=len(pool), on=True)
    for i, c in enumerate(pool):
        R.call(i + 1, *c)
    print('EVENTS ' + json.dumps(R.tr))
    sys.stdout.flush()


# ------------------------------------------------------------ real functions
def real_calls(rr):
    """(name, args, kwargs) of functions of the library; all differ."""
    import numpy as np
    import hermipy.core as core
    out = []
    sets = ['triangle', 'cube', 'cross', 'cross_nc', 'rectangle']
    for s in sets:
        for dim in (1, 2, 3):
            for n in (1, 2, 4):
                out.append(('iterator_list_indices', (dim, n), {'index_set': s}))
                out.append(('iterator_size', (dim, n), {'index_set': s}))
    out.append(('iterator_size', (2, 2), {}))
    for s in ('triangle', 'cube'):
        for ind in ([1, 2], [2, 1], [0, 0], [1, 2, 0], [12]):
            out.append(('iterator_index', (ind,), {'index_set': s}))
    for s in ('triangle', 'cube'):
        a = np.array([1., 2., 3.])
        out.append(('tensorize', ([a, a + 1],), {'index_set': s}))
        out.append(('tensorize', ([a + 1, a],), {'index_set': s}))
        out.append(('tensorize', (a, 2, 0), {'index_set': s}))
        out.append(('tensorize', (a, 2, 1), {'index_set': s}))
        M = np.arange(9.).reshape(3, 3)
        for sp in (True, False):
            out.append(('tensorize', ([M, M.T],), {'index_set': s, 'sparse': sp}))
            out.append(('tensorize', ([M.T, M],), {'index_set': s, 'sparse': sp}))
            out.append(('tensorize', (M, 2, 0), {'index_set': s, 'sparse': sp}))
            out.append(('tensorize', (M, 2, 1), {'index_set': s, 'sparse': sp}))
            out.append(('tensorize', ({frozenset({0}): M, frozenset({1}): M + 1},), {'index_set': s, 'sparse': sp}))
            out.append(('tensorize', ({frozenset({1}): M, frozenset({0}): M + 1},), {'index_set': s, 'sparse': sp}))
    v = np.arange(6.)
    for d in ([0], [1]):
        out.append(('project', (v, 2, d), {}))
    M = np.arange(36.).reshape(6, 6)
    for d in ([0], [1]):
        out.append(('project', (M, 2, d), {}))
        out.append(('project', (M.T, 2, d), {}))
    for d1, d2 in (([0, 1], [0]), ([0, 1], [1]), ([0, 2], [0]), ([0], [0, 1])):
        p, q = v[:6 if len(d1) == 2 else 3], v[:6 if len(d2) == 2 else 3] + 1
        out.append(('inner', (p, q, d1, d2), {}))
    for deg in (2, 3):
        nodes, w = np.polynomial.hermite_e.hermegauss(8)
        w = w / w.sum()
        for f in (np.array(nodes ** 2), np.array(nodes ** 3)):
            out.append(('transform', (deg, f, [list(nodes)], [list(w)], True), {}))
            out.append(('transform', (deg, f[:deg + 1], [list(nodes)], [list(w)], False), {}))
            out.append(('integrate', (f, [list(nodes)], [list(w)]), {'do_fourier': [0]}))
            for sp in (True, False):
                out.append(('varf', (deg, f, [list(nodes)], [list(w)]), {'sparse': sp}))
    for dirn in (0, 1):
        for k in range(2):
            out.append(('varfd', (2, 2, dirn, np.arange(36.).reshape(6, 6) + k), {}))
    out.append(('discretize', ('v[0]*v[0]', [list(nodes)], [0.], [[1.]]), {}))
    out.append(('discretize', ('v[0]*v[0]', [list(nodes)], [1.], [[1.]]), {}))
    out.append(('discretize', ('v[0]*v[0]', [list(nodes)], [0.], [[2.]]), {}))
    seen, res = set(), []
    for c in out:
        if c[0] == 'integrate':
            key = repr((c[0], c[1][0].tolist()))
        else:
            key = repr((c[0], [(a.tolist(), a.shape) if isinstance(a, np.ndarray) else a for a in c[1]], sorted(c[2].items())))
        if key not in seen:
            seen.add(key)
            res.append(c)
    rr.shuffle(res)
    return res


def r_real(hm, case, dirs):
    import hermipy.core as core
    import hermipy.stats as hs
    rr = random.Random(case['seed'])
    calls = real_calls(rr)[:40]
    n = len(calls)
    hm.settings['cachedir'] = dirs[1]
    hm.settings['cache'] = False
    ref = [getattr(core, f)(*a, **k) for f, a, k in calls]
    hm.settings['cachedir'] = dirs[0]
    on = rr.random() < .6
    hm.settings['cache'] = on
    tr = [{'op': 'start', 'n': n, 'on': int(on)}]
    for step in range(case['len'] + n):
        if step % 9 == 8:
            on = not on
            hm.settings['cache'] = on
            tr.append({'op': 'set', 'on': int(on)})
        k = rr.randrange(n)
        f, a, kw = calls[k]
        use = rr.choice('nnntf')
        key = f + '-hermipy.core'
        c0 = hs.stats.get(key, {'Calls': 0})['Calls']
        b = cl.snapshot(dirs[0])
        kw = dict(kw)
        if use != 'n':
            kw['cache'] = use == 't'
        try:
            a, kw = cl.relaid((a, kw), rr.choice(['fortran', 'strided', 'reversed', 'readonly']))
            res = getattr(core, f)(*a, **kw)
            ret = 0 if cl.same(res, ref[k], 1e-12) else cl.BAD
            cl.scribble(res)
        except Exception:
            ret = -3
        c1 = hs.stats.get(key, {'Calls': 0})['Calls']
        tr.append({'op': 'call', 'k': k + 1, 'use': use, 'quiet': 0, 'storable': 1, 'exec': c1 - c0, 'ret': ret,
                   'written': int(b != cl.snapshot(dirs[0]))})
    return tr


def r_solve(hm, case, dirs):
    """Solutions of linear systems go through the same cache: right with the
    cache on or off, whatever was solved before."""
    import numpy as np
    rr = random.Random(case['seed'])
    Q = hm.Quad.gauss_hermite(10, dim=1)
    mats = []
    for c in range(3):
        mats.append(Q.varf('%d + x' % (5 + c), 4, sparse=bool(c % 2)))
    rhs = [Q.transform('x**%d' % i, 4) for i in range(3)]
    tr = [{'op': 'start', 'n': 1, 'on': 0}]
    hm.settings['cachedir'] = dirs[0]
    for _ in range(14):
        hm.settings['cache'] = rr.random() < .8
        A, b = rr.choice(mats), rr.choice(rhs)
        if rr.random() < .3:
            got = A(A.solve(b, use_gmres=True, tol=1e-12) if False else A.solve(b)).coeffs
        else:
            got = A(A.solve(b)).coeffs
        tr.append({'op': 'same', 'a': [int(round(v * 1000)) for v in got], 'b': [int(round(v * 1000)) for v in b.coeffs]})
    return tr
