"""C19: every view program of the specification through every converter."""
import json
import random

from drivers.common import hermipy, ints, rng

TRACE = 'T_Layout'
MC = [('MC_Layout', 'MC_Layout1'), ('MC_Layout', 'MC_Layout2'), ('MC_Layout', 'MC_Layout3')]
ASSUMPTIONS = ['non-empty dense arrays', 'real dtypes, integer values']
DTYPES = ['float64', 'float32', 'int64', 'int32', 'int16', 'uint8', 'uint64', '>f8', '>i4', 'float16', 'longdouble', 'int8', 'bool']


def programs(cfg):
    from vlib import tlc
    r = tlc.run('MC_Layout', cfg, deadlock=False, workers=1, timeout=300)
    if r.kind != 'ok':
        raise RuntimeError('TLC %s\n%s' % (r, r.out[-2000:]))
    return [json.loads(json.loads(x)[5:]) for x in r.out.split('\n') if x.startswith('"HIST ')]


def cases(seed, tier, ctx):
    r = rng(seed, 'c19')
    out = []
    for b in (1, 2, 3):
        ps = programs('GenLayout%d' % b)
        r.shuffle(ps)
        n = {1: 200, 2: 4000, 3: 300}[b]
        ps = ps[:n]
        for i in range(0, len(ps), 25):
            out.append({'t': 'views', 'd': b, 'ps': ps[i:i + 25], 'seed': r.randint(0, 10 ** 9)})
    for _ in range(16 if tier == 'quick' else 150):
        out.append({'t': 'raw', 'seed': r.randint(0, 10 ** 9), 'n': 25})
    for _ in range(8 if tier == 'quick' else 60):
        out.append({'t': 'api', 'seed': r.randint(0, 10 ** 9)})
        out.append({'t': 'large', 'seed': r.randint(0, 10 ** 9)})
        out.append({'t': 'values', 'seed': r.randint(0, 10 ** 9)})
    for m, n, nnz in ((3, 70000, 40), (70000, 3, 40), (300, 300, 70000), (1, 70000, 66000), (40000, 2, 70000), (2, 2, 4)):
        out.append({'t': 'coo', 'm': m, 'n': n, 'nnz': nnz, 'seed': r.randint(0, 10 ** 9)})
    return out


def apply(a, prog):
    for o in prog:
        k = o['a'] - 1
        sl = [slice(None)] * a.ndim
        if o['op'] == 'T':
            a = a.T
        elif o['op'] in 'RSDE':
            sl[k] = {'R': slice(None, None, -1), 'S': slice(None, None, 2), 'D': slice(1, None), 'E': slice(None, -1)}[o['op']]
            a = a[tuple(sl)]
    return a


def fresh(rr, dims):
    """1, 2, 3, ... in one of several allocations and types."""
    import numpy as np
    dt = rr.choice(DTYPES) if rr.random() < .5 else 'float64'
    n = 1
    for x in dims:
        n *= x
    if dt == 'bool' and n > 1 or dt in ('uint8', 'int8') and n > 120:
        dt = 'float64'
    a = np.arange(1, n + 1).reshape(dims).astype(dt)
    k = rr.randrange(4)
    if k == 1:
        a = np.asfortranarray(a)
    elif k == 2:          # lies inside a bigger array
        b = np.full(tuple(x + 3 for x in dims), 99 if dt != 'bool' else True).astype(dt)
        b[tuple(slice(1, 1 + x) for x in dims)] = a
        a = b[tuple(slice(1, 1 + x) for x in dims)]
    elif k == 3 and a.dtype.itemsize > 1:        # not aligned
        raw = np.zeros(a.nbytes + 1, dtype='u1')
        b = raw[1:].view(a.dtype).reshape(dims)
        b[...] = a
        a = b
    return a


def trips(hm, rr, a):
    """(name, function) of every way there and back."""
    import numpy as np
    import hermite_cpp as hc
    import hermipy.core as core
    res = [('to_cpp', lambda x: core.to_numpy(core.to_cpp(x))),
           ('to_cpp_array', lambda x: core.to_numpy(core.to_cpp_array(x))),
           ('list', lambda x: core.to_numpy(core.to_cpp(x.tolist())))]
    if a.ndim == 2:
        res += [('to_mat', lambda x: hc.to_numpy(hc.to_mat(x))), ('to_bmat', lambda x: hc.to_numpy(hc.to_bmat(x))),
                ('to_boost_mat', lambda x: hc.to_numpy(hc.to_boost_mat(x))),
                ('core_boost', lambda x: core.to_numpy(hc.to_boost_mat(x))),
                ('two', lambda x: core.to_numpy(list(core.to_cpp(np.eye(2), x))[1])),
                ('full', lambda x: hc.to_numpy(hc.full(hc.to_spmat(hc.to_mat(x)))))]
    return res


def r_views(hm, case):
    import numpy as np
    import scipy.sparse as ss
    import hermipy.core as core
    rr = random.Random(case['seed'])
    tr = []
    for p in case['ps']:
        base = fresh(rr, p['dims'])
        keep = base.copy()
        a = apply(base, p['prog'])
        if rr.random() < .25:
            a = a.copy(order=rr.choice('CFAK')) if rr.random() < .5 else a.view()
            a.flags.writeable = False
        for name, f in trips(hm, rr, a):
            got = f(a)
            tr.append({'op': 'trip', 'dims': p['dims'], 'prog': p['prog'], 'how': name,
                       'shape': [int(x) for x in got.shape], 'vals': ints(np.asarray(got, dtype=float).ravel())})
        if not np.array_equal(base, keep):
            tr.append({'op': 'same', 'a': 0, 'b': 1})
        if a.ndim == 2:
            k = rr.randint(1, 4)
            q = rr.randrange(k)
            d = np.where(np.asarray(a, dtype=float) % k == q, a, 0).astype(float)
            S = ss.csr_matrix(d.astype(rr.choice(['float64', 'float32', 'int64'])))
            if rr.random() < .3:
                S = ss.csr_matrix(d.T).T.tocsr()
            if rr.random() < .2:
                S = ss.csr_matrix(np.vstack([d[:1], d]))[1:]
            got = core.to_numpy(core.to_cpp(S))
            if not ss.isspmatrix_csr(got):
                tr.append({'op': 'notsparse'})
            else:
                tr.append({'op': 'sparse', 'dims': p['dims'], 'prog': p['prog'], 'keep': k, 'rest': q,
                           'shape': [int(x) for x in got.shape], 'vals': ints(np.asarray(got.todense()).ravel())})
    # what was converted no longer depends on the source
    a = np.arange(1., 7.).reshape(2, 3)
    import hermite_cpp as hc
    for f, g in ((core.to_cpp, core.to_numpy), (hc.to_mat, hc.to_numpy), (hc.to_bmat, hc.to_numpy), (hc.to_boost_mat, hc.to_numpy)):
        b = a.copy()
        c = f(b)
        b[...] = 0
        r1 = g(c)
        r1v = ints(r1.ravel())
        r1[...] = 5
        del c
        tr.append({'op': 'trip', 'dims': [2, 3], 'prog': [], 'shape': [2, 3], 'vals': r1v})
    for f, g in ((hc.to_bmat, hc.to_numpy), (hc.to_boost_mat, hc.to_numpy), (hc.to_mat, hc.to_numpy)):
        c = f(a)
        r1 = g(c)
        r1[...] = 5
        r2 = g(c)
        tr.append({'op': 'trip', 'dims': [2, 3], 'prog': [], 'shape': [2, 3], 'vals': ints(r2.ravel())})
        del c
        junk = [np.full((2, 3), 7.) for _ in range(20)]
        tr.append({'op': 'trip', 'dims': [2, 3], 'prog': [], 'shape': [2, 3], 'vals': ints(r2.ravel())})
    return tr


def r_raw(hm, case):
    """Compressed matrices as they come: empty rows, no entries, stored zeros, unsorted columns."""
    import numpy as np
    import scipy.sparse as ss
    import hermipy.core as core
    import hermite_cpp as hc
    rr = random.Random(case['seed'])
    tr = []
    for _ in range(case['n']):
        m, n = rr.randint(1, 6), rr.randint(1, 6)
        dens = rr.choice([0, .2, .5, 1])
        indptr, indices, data = [0], [], []
        for i in range(m):
            cols = [j for j in range(n) if rr.random() < dens]
            if rr.random() < .3:
                rr.shuffle(cols)
            if cols and rr.random() < .15:          # an entry may be stored in several parts
                cols += rr.choices(cols, k=2)
            for j in cols:
                indices.append(j)
                data.append(rr.choice([0, 1, 2, -3, 4, 5]))
            indptr.append(len(indices))
        dt = rr.choice(['float64', 'float32', 'int64'])
        S = ss.csr_matrix((np.array(data, dtype=dt), np.array(indices, dtype=int), np.array(indptr)), shape=(m, n))
        got = core.to_numpy(core.to_cpp(S))
        ev = {'op': 'raw', 'm': m, 'n': n, 'indptr': indptr, 'indices': indices, 'data': data}
        tr.append(dict(ev, how='to_cpp', shape=[int(x) for x in got.shape], vals=ints(np.asarray(got.todense()).ravel())))
        sp = core.convert_to_cpp_sparse(S)
        f = np.array([list(r) for r in hc.full(sp)])
        tr.append(dict(ev, how='full', shape=[int(x) for x in f.shape], vals=ints(f.ravel())))
        tr.append({'op': 'same', 'a': [m, n], 'b': [int(sp.size1()), int(sp.size2())]})
        rcv = [ints(v) for v in hc.row_col_val(sp)]
        f = np.zeros((m, n))
        for i, j, v in zip(*rcv):
            f[i, j] += v
        tr.append(dict(ev, how='triplets', shape=[m, n], vals=ints(f.ravel())))
    return tr


def r_large(hm, case):
    """Bigger shapes, one view each."""
    import numpy as np
    import hermipy.core as core
    rr = random.Random(case['seed'])
    tr = []
    for _ in range(3):
        dims = [rr.randint(10, 40), rr.randint(10, 40)]
        prog = []
        for _ in range(rr.randint(1, 4)):
            prog.append({'op': rr.choice('TRSDE'), 'a': rr.randint(1, 2)})
        a = apply(np.arange(1., dims[0] * dims[1] + 1).reshape(dims), prog)
        for name, f in trips(hm, rr, a):
            got = f(a)
            tr.append({'op': 'trip', 'dims': dims, 'prog': prog, 'how': name, 'shape': [int(x) for x in got.shape],
                       'vals': ints(np.asarray(got, dtype=float).ravel())})
    return tr


def table(rr, dt, n):
    """n distinct values of type dt that are doubles; they stand for 1, 2, 3, ..."""
    import numpy as np
    if dt in ('float64', '>f8', 'longdouble'):
        pool = [float('inf'), float('-inf'), float('nan'), 1e300, -1e300, 5e-324, -2.5e-310, 1e-300, 1 / 3, -0.1, 1e-17, -1e-13,
                2. ** 53 + 2, 1e16 + 2, np.pi, np.nextafter(1, 2), np.nextafter(1, 0), 1., 0., 65536., 4294967296.5]
        while len(pool) < n:
            pool.append(rr.gauss(0, 1) * 10. ** rr.randint(-30, 30))
    elif dt in ('float32', 'float16'):
        pool = [1e-5, 0.1, -0.3, float('inf'), 60000., -1., 2 ** -14]
        while len(pool) < n:
            pool.append(rr.gauss(0, 1) * 10)
    elif dt == 'int64':
        pool = [-2 ** 63, 2 ** 62, -2 ** 53, 2 ** 31, -2 ** 31 - 1, 2 ** 32 + 1, -1] + [rr.randint(-2 ** 50, 2 ** 50) for _ in range(n)]
    elif dt == 'uint64':
        pool = [2 ** 63, 2 ** 64 - 2048, 2 ** 32, 2 ** 31] + [rr.randint(0, 2 ** 50) for _ in range(n)]
    else:
        i = np.iinfo(dt)
        pool = [int(i.min), int(i.max), 0, 1] + [rr.randint(int(i.min), int(i.max)) for _ in range(2 * n)]
    rr.shuffle(pool)
    a = np.array(pool).astype(dt)
    seen, out = set(), []
    for x in a:
        k = float(x).hex()
        if k not in seen:
            seen.add(k)
            out.append(x)
    return np.array(out[:n], dtype=dt)


def r_values(hm, case):
    """Any value: the entries are recognised by their bits."""
    import numpy as np
    import scipy.sparse as ss
    import hermipy.core as core
    rr = random.Random(case['seed'])
    tr = []
    for _ in range(8):
        dims = [rr.randint(1, 6) for _ in range(rr.randint(1, 3))]
        n = int(np.prod(dims))
        dt = rr.choice(['float64'] * 4 + ['float32', 'float16', 'int64', 'uint64', 'int32', 'int16', 'int8', 'uint8', '>f8', '>i4'])
        t = table(rr, dt, n)
        if len(t) < n:
            continue
        back = {float(x).hex(): i + 1 for i, x in enumerate(t)}
        prog = [{'op': rr.choice('TRS'), 'a': rr.randint(1, len(dims))} for _ in range(rr.randint(0, 2))]
        a = apply(t.reshape(dims), prog)
        plain = all(np.isfinite(float(x)) for x in t)
        for name, f in trips(hm, rr, a):
            if name == 'full' and not plain:
                continue
            got = np.asarray(f(a))
            tr.append({'op': 'trip', 'dims': dims, 'prog': prog, 'how': name, 'dt': dt, 'shape': [int(x) for x in got.shape],
                       'vals': [back.get(float(x).hex(), 2000000001) for x in got.ravel()]})
        if a.ndim == 2 and dt != 'float16':
            S = ss.csr_matrix(np.array(a, dtype='float64' if dt[0] == '>' else dt))
            got = np.asarray(core.to_numpy(core.to_cpp(S)).todense())
            tr.append({'op': 'trip', 'dims': dims, 'prog': prog, 'how': 'csr', 'dt': dt, 'shape': [int(x) for x in got.shape],
                       'vals': [back.get(float(x).hex(), 2000000001) for x in got.ravel()]})
    return tr


def r_coo(hm, case):
    """Long and large compressed matrices."""
    import numpy as np
    import scipy.sparse as ss
    import hermipy.core as core
    g = np.random.default_rng(case['seed'])
    m, n = case['m'], case['n']
    cells = np.sort(g.choice(m * n, size=min(case['nnz'], m * n), replace=False))
    if case['nnz'] < m * n:
        cells[-1] = m * n - 1
    rows, cols = cells // n, cells % n
    data = g.integers(1, 1000, size=len(cells)).astype(float)
    S = ss.csr_matrix((data, (rows, cols)), shape=(m, n))
    got = core.to_numpy(core.to_cpp(S))
    k = got.tocoo()
    o = np.lexsort((k.col, k.row))
    return [{'op': 'coo', 'dims': [m, n], 'shape': [int(x) for x in got.shape],
             'rows': rows.tolist(), 'cols': cols.tolist(), 'vals': ints(data),
             'rows2': k.row[o].tolist(), 'cols2': k.col[o].tolist(), 'vals2': ints(k.data[o])}]


def r_api(hm, case):
    """Functions of the library given views and other types: same answer as for plain arrays."""
    import numpy as np
    import scipy.sparse as ss
    import hermipy.core as core
    rr = random.Random(case['seed'])
    tr = []

    def lay(a):
        k = rr.randrange(6)
        if k == 0:
            return np.asfortranarray(a)
        if k == 1:
            return a.astype(rr.choice(['int64', 'float32', 'int32', '>f8']))
        if k == 2:
            b = np.zeros(tuple(2 * s for s in a.shape))
            sl = tuple(slice(None, None, 2) for _ in a.shape)
            b[sl] = a
            return b[sl]
        if k == 3:
            sl = tuple(slice(None, None, -1) for _ in a.shape)
            return a[sl].copy()[sl]
        if k == 4:
            return a.T.copy().T
        return a

    def arr(*s):
        return np.array([rr.randint(-4, 4) for _ in range(int(np.prod(s)))], dtype=float).reshape(s)

    def out(x):
        if ss.issparse(x):
            x = np.asarray(x.todense())
        return [[int(s) for s in np.shape(x)], ints(np.asarray(x).ravel())]
    for _ in range(12):
        v1, v2, m1, m2, m6, v6 = arr(3), arr(3), arr(3, 3), arr(3, 3), arr(6, 6), arr(6)
        dirn = rr.randrange(2)
        s6 = ss.csr_matrix(m6)
        s3 = ss.csr_matrix(m1)
        for f, args in ((lambda a, b: core.tensorize([a, b]), (v1, v2)), (lambda a, b: core.tensorize([a, b]), (m1, m2)),
                        (lambda a, b: core.tensorize([a, b], sparse=True), (m1, m2)),
                        (lambda a: core.tensorize(a, 2, dirn), (v1,)), (lambda a: core.tensorize(a, 2, dirn), (m1,)),
                        (lambda a: core.project(a, 2, [dirn]), (v6,)), (lambda a: core.project(a, 2, [dirn]), (m6,)),
                        (lambda a, b: core.inner(a, b, [0, 1], [dirn]), (v6, v1)),
                        (lambda a: core.varfd(2, 2, dirn, a), (m6,)), (lambda a: core.iterator_index(a), (np.abs(v1),)),
                        (lambda a, b: core.tensorize({frozenset({1}): a, frozenset({0}): b}), (m1, m2))):
            keep = [a.copy() for a in args]
            if f is None:
                continue
            plain = out(f(*args))
            laid = [lay(a) for a in args]
            tr.append({'op': 'same', 'a': plain, 'b': out(f(*laid))})
            tr.append({'op': 'same', 'a': [ints(k.ravel()) for k in keep], 'b': [ints(np.asarray(x, dtype=float).ravel()) for x in laid]})
        # the sparse form of a matrix is the same matrix
        tr.append({'op': 'same', 'a': out(core.project(m6, 2, [dirn])), 'b': out(core.project(s6, 2, [dirn]))})
        tr.append({'op': 'same', 'a': out(core.varfd(2, 2, dirn, m6)), 'b': out(core.varfd(2, 2, dirn, s6))})
        tr.append({'op': 'same', 'a': out(core.tensorize([m1, m2])), 'b': out(core.tensorize([s3, ss.csr_matrix(m2)]))})
        tr.append({'op': 'same', 'a': out(core.tensorize(m1, 2, dirn)), 'b': out(core.tensorize(s3, 2, dirn))})
    return tr


def run(case):
    hm = hermipy()
    return globals()['r_' + case['t']](hm, case)
