"""Generation and execution shared by C04, C05 and C06."""
import random

from drivers.common import KINDS, hermipy, ints, listing, raises

_cache = {}


def lst(kind, d, n):
    key = (kind, d, n)
    if key not in _cache:
        _cache[key] = listing(kind, d, n)
    return _cache[key]


def count(kind, d, n):
    from drivers.c03 import size_of
    return size_of(kind, d, n)


def max_deg(kind, d, limit):
    n = 1
    while n < 60 and count(kind, d, n + 1) <= limit:
        n += 1
    return n


def partitions(items):
    items = list(items)
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for p in partitions(rest):
        yield [[first]] + p
        for i in range(len(p)):
            yield p[:i] + [[first] + p[i]] + p[i + 1:]


def entries(rr, n, zero=0.2, lo=-9, hi=9):
    return [0 if rr.random() < zero else rr.randint(lo, hi) for _ in range(n)]


def matrix(rr, n, zero):
    return [entries(rr, n, zero) for _ in range(n)]


def cert(part_list, all_dirs, dirs, full):
    at = {tuple(m): i + 1 for i, m in enumerate(part_list)}
    rel = [all_dirs.index(d) for d in dirs]
    return [at.get(tuple(m[r] for r in rel), 0) for m in full]


def dense(m):
    import numpy as np
    import scipy.sparse as ss
    if ss.issparse(m):
        return [ints(r) for r in m.toarray()]
    return [ints(r) for r in np.asarray(m)]


def issp(m):
    import scipy.sparse as ss
    return 1 if ss.issparse(m) else 0


def scales(rr, k):
    """exponents of powers of two that multiply to one: the parts become tiny
    or huge, every product stays the same (and exact)"""
    if k < 2 or rr.random() < .5:
        return [0] * k
    e = [rr.choice([0, 20, 55, 70, -55, -70]) for _ in range(k - 1)]
    return e + [-sum(e)]


def scale1(rr):
    return 2. ** rr.choice([0, 0, 0, 50, -50, -90])


def lay(rr, a):
    """the same array in another memory layout or representation"""
    import numpy as np
    import scipy.sparse as ss
    k = rr.randrange(6)
    if ss.issparse(a):
        if k == 0 and a.nnz:           # columns of a row in another order
            b = ss.csr_matrix(a)
            for i in range(b.shape[0]):
                u, v = b.indptr[i], b.indptr[i + 1]
                b.indices[u:v] = b.indices[u:v][::-1].copy()
                b.data[u:v] = b.data[u:v][::-1].copy()
            b.has_sorted_indices = False
            return b
        if k == 1:                     # stored zeros
            c = ss.coo_matrix(a)
            n = min(a.shape)
            z = [(i, i) for i in range(n) if a[i, i] == 0][:5]
            return ss.csr_matrix((np.concatenate([c.data, np.zeros(len(z))]),
                                  (np.concatenate([c.row, [i for i, _ in z]]).astype(int),
                                   np.concatenate([c.col, [j for _, j in z]]).astype(int))), shape=a.shape)
        return a
    if not isinstance(a, np.ndarray) or a.ndim == 0:
        return a
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        return np.ascontiguousarray(a[::-1])[::-1]
    if k == 2:
        b = np.zeros(tuple(2 * x for x in a.shape))
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    if k == 3:
        a = a.copy()
        a.flags.writeable = False
    return a
