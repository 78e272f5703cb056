"""Recorder for the result cache (C16, C17): argument pool, probe functions,
directory snapshots, histories generated by TLC."""
import hashlib
import json
import os
import types

BAD = 2000000001


# ---------------------------------------------------------------- generation
def histories(cfg, num, seed, depth=25):
    """Complete histories of MC_Cache, one per simulated behaviour."""
    from vlib import tlc
    r = tlc.run('MC_Cache', cfg, deadlock=False, simulate=num, depth=depth, seed=seed, workers=1)
    if r.kind != 'ok':
        raise RuntimeError('TLC %s\n%s' % (r, r.out[-2000:]))
    seen, out = set(), []
    for line in r.out.split('\n'):
        if line.startswith('"HIST '):
            h = json.loads(json.loads(line)[5:])
            key = json.dumps(h[:-1])
            if key not in seen:
                seen.add(key)
                out.append(h)
    if len(out) < num // 2:
        raise RuntimeError('no histories from TLC\n' + r.out[-2000:])
    return out


# ----------------------------------------------------------------- execution
def pool():
    """Calls that all differ: list of (args, kwargs)."""
    import numpy as np
    import scipy.sparse as ss
    import sympy as sym
    x, y = sym.symbols('x y')
    xr = sym.Symbol('x', real=True)
    f = sym.Function('f')
    big = np.arange(4000.)
    big2 = big.copy()
    big2[2000] += .5
    big3 = big.copy()
    big3[1] = -1
    tiny = np.ones(5)
    tiny2 = tiny.copy()
    tiny2[3] += 1e-15
    m = np.arange(6.).reshape(2, 3)
    A = ss.csr_matrix(np.array([[0., 1, 0], [2, 0, 0]]))
    one = [
        1, 2, -1, 0, 12, 21, 10 ** 25, 1.0, 2.0, 0.1, 0.1 + 2 ** -56 * 4, 1e-300, 1e300, 5e-324, 1e-310, 0., float('inf'), -float('inf'), 1e16, 1e16 + 2, 0.30000000000000004, .3,
        True, False, None, 'None', 'True', '1', '1.0', '', ' ', 'x', 'a', 'a-b', 'a,b', "['a']", 'x + y', 'é',
        [], (), {}, frozenset(), [[]], [()], ([],), [None], [1], [1.0], [True], ['1'], (1,), [1, 2], (1, 2), [2, 1],
        [12], [[1, 2]], [[1], [2]], [[1], 2], [1, [2]], [1, 2, []], [[1, 2], []], [[1, 2, 3]], [[1, 2], [3]],
        [[1], [2, 3]], ['a', 'b-c'], ['a-b', 'c'], ['a-b-c'], ['ab'], ['a', 'b'], [x, y], [y, x], [x],
        {'a': 1}, {'a': 2}, {'b': 1}, {'a': 1, 'b': 2}, {'a': 2, 'b': 1}, {1: 'a'}, {'a': {'b': 1}}, {'ab': 1},
        {'a': [1]}, {'a': None}, {frozenset({0}): 1, frozenset({1}): 2}, {frozenset({0}): 2, frozenset({1}): 1},
        {frozenset({0, 1}): 1}, {frozenset({0, 2}): 1}, frozenset({1}), frozenset({1, 2}), frozenset({'1'}),
        frozenset({1, 2, 3}), frozenset({12}),
        x, y, xr, x + y, x * y, x ** 2, 2 * x, sym.Integer(1), sym.Integer(2), sym.Float(1.0), sym.Rational(1, 3), sym.pi,
        sym.sin(x), sym.cos(x), f(x), f(y), f(x).diff(x), f(x).diff(x, 2), f(x, y).diff(x), sym.Symbol('y', positive=True),
        sym.Function('g')(x), sym.Function('g')(xr), x + 1, x - 1, sym.exp(x), sym.exp(-x), sym.sqrt(x), x ** 3, sym.true,
        np.array([1., 2.]), np.array([2., 1.]), np.array([[1., 2.]]), np.array([[1.], [2.]]), np.array([1, 2]),
        np.array([1, 2], dtype='int32'), np.array([1., 2.], dtype='float32'), np.array([1., 2.], dtype=complex),
        np.array([1., 2.], dtype='>f8'), np.array([1., 2.], dtype='>f8').view('<f8'), np.array([1, 2], dtype='>i4').view('<i4'),
        np.array([1, 2], dtype='>i4'), np.array([True, False]), np.array([1., 2., 0.]), np.array([]), np.zeros((0, 2)), np.zeros((2, 0)), np.zeros(1),
        np.zeros(2), np.zeros((2, 2)), np.zeros(4), np.zeros((4, 1)), np.zeros((1, 4)), np.zeros((2, 2, 1)), np.eye(2), np.ones(4),
        m, m.T, m.reshape(3, 2), m.ravel(), m[::-1], m[:, ::-1], m[:, :2], big, big2, big3, big[::-1].copy(),
        big.reshape(40, 100), big.reshape(100, 40), tiny, tiny2, big[:-1], np.array(3.5), np.array(['a', 'b']),
        [m], [m, m], [m.ravel()], (m,), [m[0], m[1]], [m[1], m[0]], [np.array([1., 2.]), np.array([3.])],
        [np.array([1.]), np.array([2., 3.])], [np.array([1., 2., 3.])],
        A, ss.csr_matrix((2, 3)), ss.csr_matrix((3, 2)), ss.csr_matrix((2, 4)), 2 * A, A.T.tocsr(), ss.csr_matrix(A.toarray()[::-1]),
        ss.csr_matrix(A.toarray()[:, ::-1]), ss.csr_matrix(np.array([[0., 1, 0], [0, 2, 0]])),
        ss.csr_matrix((np.array([1., 2.]), np.array([1, 0]), np.array([0, 1, 2])), shape=(2, 5)),
        ss.csr_matrix((np.array([1., 2.]), np.array([1, 2]), np.array([0, 2, 2])), shape=(2, 3)),
        ss.csr_matrix((np.array([1., 2.]), np.array([1, 2]), np.array([0, 0, 2])), shape=(2, 3)),
        A.toarray(), [A], [A, A], ss.csr_matrix(np.eye(2)), ss.csr_matrix(np.eye(3)),
    ]
    calls = [((a,), {}) for a in one]
    calls += [((), {}), ((1, 2), {}), ((2, 1), {}), ((12, None), {}), ((None, 12), {}), ((1, [2]), {}), (([1], 2), {}),
              ((None, None), {}), ((1, None), {}), (('a', 'b'), {}), (('a', 'b', 'c'), {}), (('ab', 'c'), {}), (('a', 'bc'), {}),
              (('a', 1), {}), ((1, 2, 3), {}), (([1, 2], 3), {}), ((1, [2, 3]), {}), ((m, 0), {}), ((0, m), {}),
              ((), {'a': 1}), ((), {'a': 2}), ((), {'b': 1}), ((), {'a': 1, 'b': 2}), ((), {'a': 2, 'b': 1}), ((), {'ab': 12}),
              ((1,), {'a': 1}), ((1,), {'a': 2}), ((1,), {'b': 1}), ((2,), {'a': 1}), ((1, 'a'), {}), (('a',), {'a': 1}),
              ((), {'a': None}), ((), {'a': m}), ((), {'a': m.T}), ((), {'a': A}), ((), {'a': x}), ((), {'a': 'x'}), ((), {'a': [1]}),
              ((), {'a': {'b': 1}}), ((), {'c': 'a', 'd': 'b'}), ((), {'c': 'b', 'd': 'a'}), ((), {'kwa': 1}), (('kwa', 1), {}),
              ((), {'index_set': 'cross'}), ((), {'index_set': 'triangle'}), ((), {'sparse': True}), ((), {'sparse': False}),
              ((), {'dim': 1, 'direction': 2}), ((), {'dim': 2, 'direction': 1})]
    return calls


def relaid(args, how):
    """The same call, arguments equal in value and type but other objects in
    another memory layout."""
    import copy
    import numpy as np
    import scipy.sparse as ss

    def go(a):
        if isinstance(a, np.ndarray) and a.ndim and a.dtype.kind in 'biufc':
            if how == 'fortran':
                return np.asfortranarray(a)
            if how == 'strided':
                b = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
                sl = tuple(slice(0, None, 2) for _ in a.shape)
                b[sl] = a
                return b[sl]
            if how == 'reversed':
                sl = tuple(slice(None, None, -1) for _ in a.shape)
                return a[sl].copy()[sl]
            b = a.copy()
            b.flags.writeable = False
            return b
        if isinstance(a, ss.csr_matrix):
            return a.copy()
        if isinstance(a, list):
            return [go(e) for e in a]
        if isinstance(a, tuple):
            return tuple(go(e) for e in a)
        if isinstance(a, dict):
            return {k: go(v) for k, v in a.items()}
        if isinstance(a, str):
            return ''.join(list(a))
        return copy.deepcopy(a)
    args, kwargs = args
    kw = {k: go(kwargs[k]) for k in reversed(list(kwargs))}
    return tuple(go(a) for a in args), kw


KINDS = ['int', 'float', 'intfloat', 'npf', 'npi', 'arr', 'mat', 'imat', 'cplx', 'big', 'csr', 'csrpat', 'shape', 'last', 'bool', 'cube', 'one', 'single', 'empty', 'csr1', 'csr0', 'f32', 'u8', 'barr', 'carr', 'inf', 'nan', 'infs', 'nans', 'nancsr']
LOOSE = ['tuple', 'pycomplex']     # cannot be put in a file


def value(kind, k, v):
    import numpy as np
    import scipy.sparse as ss
    if kind == 'int':
        return 10 * k + v
    if kind == 'float':
        return k + .25 + v / 2
    if kind == 'intfloat':
        return float(2 * k + v)
    if kind == 'npf':
        return np.float64(k + .125 + v / 2)
    if kind == 'npi':
        return np.int64(10 * k + v)
    if kind == 'bool':
        return bool(v)
    if kind == 'arr':
        return np.arange(5.) * k + v
    if kind == 'cube':
        return np.arange(12.).reshape(2, 3, 2) * k - v
    if kind == 'mat':
        return np.asfortranarray(np.arange(6.).reshape(2, 3) + k + 100 * v)
    if kind == 'imat':
        return np.arange(6).reshape(3, 2) + 10 * k + v
    if kind == 'cplx':
        return np.array([1j * k, v, 2.])
    if kind == 'big':
        a = np.ones((60, 60)) * k
        a[30, 31] += v
        return a
    if kind == 'csr':
        return ss.csr_matrix(np.array([[0, k, 0], [v + 1., 0, 0]]))
    if kind == 'csrpat':
        a = np.zeros((3, 4))
        a[1, 1 + v] = k
        return ss.csr_matrix(a)
    if kind == 'shape':
        return np.full((2, 3) if v == 0 else (3, 2), float(k))
    if kind == 'last':
        a = np.full(7, float(k))
        a[6] += v * 1e-6
        return a
    if kind == 'one':
        return np.array([[k + v / 2]])
    if kind == 'single':
        return np.array([float(2 * k + v)])
    if kind == 'empty':
        return np.zeros((0, 2 * k + v))
    if kind == 'csr1':
        return ss.csr_matrix(np.array([[2. * k + v]]))
    if kind == 'csr0':
        return ss.csr_matrix((2 * k + v, 3))
    if kind == 'f32':
        return np.array([k + v / 2, .1, 3], dtype=np.float32)
    if kind == 'u8':
        return np.array([[2 * k + v, 255, 0]], dtype=np.uint8)
    if kind == 'barr':
        return np.array([bool((2 * k + v) >> i & 1) for i in range(8)])
    if kind == 'carr':
        return np.array([[k + 1j * v]])
    if kind == 'inf':
        return float('-inf' if v else 'inf')
    if kind == 'nan':
        return float(k) if v else float('nan')
    if kind == 'infs':
        return np.array([[np.inf, k], [-np.inf, v]])
    if kind == 'nans':
        return np.array([np.nan, k, np.inf, v, np.nan if v else 1.])
    if kind == 'nancsr':
        return ss.csr_matrix(np.array([[0, np.nan, 0, k], [0, 0, np.inf, np.nan if v else 3]]))
    if kind == 'tuple':
        return (k, v)
    if kind == 'pycomplex':
        return complex(k, v)
    raise KeyError(kind)


def same(a, b, tol=0.):
    import numpy as np
    import scipy.sparse as ss
    if ss.issparse(a) or ss.issparse(b):
        if not (ss.issparse(a) and ss.issparse(b)) or a.shape != b.shape:
            return False
        return same(a.toarray(), b.toarray(), tol)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype == bool or b.dtype == bool:
            return a.shape == b.shape and bool(np.all(a == b))
        with np.errstate(invalid='ignore'):
            return bool(np.all((a == b) | (a != a) & (b != b) | (np.abs(a - b) <= tol)))
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and a == b
    return type(a) is not str and bool(a == b or a != a and b != b or abs(a - b) <= tol)


def scribble(a):
    """The caller does with the result as he likes."""
    import numpy as np
    import scipy.sparse as ss
    if isinstance(a, np.ndarray) and a.ndim and a.size and a.flags.writeable:
        a[...] = 77
    elif ss.issparse(a) and a.nnz:
        a.data[...] = 77


def snapshot(d):
    res = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            try:
                st = os.stat(p)
                with open(p, 'rb') as fd:
                    res[os.path.relpath(p, d)] = (st.st_size, st.st_mtime_ns, st.st_ino, hashlib.md5(fd.read()).hexdigest())
            except OSError:
                pass
    return res


class Recorder:
    """A function behind the cache; every call is written down."""

    def __init__(self, hm, dirs, kind='int', quiet=False, n=1, on=False, names=1):
        from hermipy.cache import cache
        self.hm, self.dirs, self.kind, self.quiet, self.n = hm, dirs, kind, quiet, n
        self.ver = {}
        self.count = 0
        self.cur = None
        self.fail = False
        self.files = {}
        self.funs = []
        for i in range(names):
            def probe(*args, **kwargs):
                self.count += 1
                if self.fail:
                    raise KeyError('fails')
                return value(self.kind, self.cur, self.ver.get(self.cur, 0))
            # same name in another module, other name in the same module
            probe.__module__ = ['modone', 'modtwo', 'modone', 'modtwo'][i % 4]
            probe.__name__ = ['probe', 'probe', 'probex', 'probex'][i % 4]
            self.funs.append(cache(quiet=quiet)(probe))
        self.storable = kind not in LOOSE
        self.use_dir(0)
        hm.settings['cache'] = bool(on)
        self.tr = [{'op': 'start', 'n': n, 'on': int(bool(on))}]

    def use_dir(self, i):
        self.cdir = self.dirs[i]
        self.hm.settings['cachedir'] = self.cdir

    def call(self, k, args, kwargs, use='n', fun=0, scrib=True):
        before = {d: snapshot(d) for d in self.dirs}
        keep = dict(self.hm.settings)
        n0 = self.count
        self.cur = k
        kw = dict(kwargs)
        if use != 'n':
            kw['cache'] = use == 't'
        try:
            res = self.funs[fun](*args, **kw)
            ret = BAD
            for v in (self.ver.get(k, 0), 1 - self.ver.get(k, 0)):
                if same(res, value(self.kind, k, v)):
                    ret = v
                    break
            if scrib:
                scribble(res)
        except KeyError as e:
            ret = -4 if self.fail else -3
            if 'fails' not in str(e):
                ret = -3
        except Exception:
            ret = -3
        after = {d: snapshot(d) for d in self.dirs}
        changed = [(d, f) for d in self.dirs for f in set(before[d]) | set(after[d]) if before[d].get(f) != after[d].get(f)]
        if changed:
            self.files.setdefault(k, set()).update(os.path.join(d, f) for d, f in changed)
        self.tr.append({'op': 'raising' if self.fail else 'call', 'k': k, 'use': use, 'quiet': int(self.quiet),
                        'storable': int(self.storable), 'exec': self.count - n0, 'ret': ret,
                        'written': int(bool(changed))})
        if keep != self.hm.settings:
            self.tr.append({'op': 'same', 'a': 1, 'b': 0})
        return ret

    def setting(self, on):
        self.hm.settings['cache'] = bool(on)
        self.tr.append({'op': 'set', 'on': int(bool(on))})

    def change(self, k):
        self.ver[k] = 1 - self.ver.get(k, 0)
        self.tr.append({'op': 'change', 'k': k})

    def entry(self, k):
        return [f for f in sorted(self.files.get(k, ())) if os.path.isfile(f)]


def newdir():
    import tempfile
    return tempfile.mkdtemp(prefix='cache-', dir=os.environ['VERIF_SCRATCH'])
