"""Helpers shared by the drivers.  Generation side (no hermipy import) and
execution side (hermipy imported lazily, inside the worker)."""
import math
import os
import random

BAD = 2000000001
LIM = 2000000000
KINDS = ['triangle', 'cube', 'cross', 'cross_nc', 'rectangle']


def rng(seed, salt):
    return random.Random('%s/%s' % (seed, salt))


def in_set(kind, n, m):
    if kind == 'triangle':
        return sum(m) <= n
    if kind == 'cube':
        return max(m) <= n
    if kind in ('cross', 'cross_nc'):
        p = 1
        for x in m:
            p *= max(1, x)
        return p <= max(n, 1)
    return m[0] <= n and all(2 * x <= n for x in m[1:])


def as_int(x, tol=1e-6):
    """Nearest integer if x is (numerically) one, else BAD."""
    try:
        if isinstance(x, complex) or (hasattr(x, 'imag') and abs(x.imag) > 1e-9):
            if abs(x.imag) > 1e-9:
                return BAD
            x = x.real
        x = float(x)
    except Exception:
        return BAD
    if math.isnan(x) or math.isinf(x) or abs(x) > LIM:
        return BAD
    r = round(x)
    if abs(x - r) > tol * max(1.0, abs(x)):
        return BAD
    return int(r)


def ints(v, tol=1e-6):
    return [as_int(x, tol) for x in v]


_ready = False


def hermipy():
    """Import hermipy in the worker with a private cache directory."""
    global _ready
    import hermipy as hm
    if not _ready:
        hm.settings['cachedir'] = os.path.join(os.environ['VERIF_SCRATCH'], 'cache')
        hm.settings['cache'] = False
        _ready = True
    return hm


def listing(kind, dim, deg):
    import hermipy.core as core
    r = core.iterator_list_indices(dim, deg, index_set=kind)
    return [[int(x) for x in m] for m in r]


def raises(fn):
    """1 if fn() raised an ordinary Python exception, else 0."""
    try:
        fn()
    except Exception:
        return 1
    return 0
