"""C15: the same requests under changing settings and options."""
import contextlib
import copy
import io
import os
import random
import shutil

from drivers import gal, tens
from drivers.common import BAD, KINDS, hermipy, rng

TRACE = 'T_Settings'
MC = [('MC_Settings', 'MC_Settings')]
ASSUMPTIONS = ['factors are products over groups of directions',
              'Fourier directions: even degree; derivatives in one direction or on the cube']
NAMES = ['tensorize', 'sparse', 'debug', 'trails', 'cache']
Q = 10 ** 6


def cases(seed, tier, ctx):
    r = rng(seed, 'c15')
    out = []
    for i in range(64 if tier == 'quick' else 800):
        out.append({'kind': KINDS[i % 5], 'dim': r.choice([1, 2, 2, 3]), 'four': int(i % 7 == 6), 'fac': r.choice([0, 0, 0, 1, 2]),
                    'comp': int(r.random() < .12), 'seed': r.randint(0, 10 ** 9)})
    return out


def quant(v, scale):
    import math
    import numpy as np
    out = []
    for x in np.asarray(v).ravel():
        if np.iscomplexobj(x) and abs(x.imag) > 1e-9:
            out.append(BAD)
            continue
        x = float(np.real(x)) * scale
        out.append(BAD if math.isnan(x) or math.isinf(x) else int(round(max(-2e9 / 2, min(2e9 / 2, x)))))
    return out


class Sess:
    def __init__(self, hm, rr, case):
        self.hm, self.rr, self.case, self.tr = hm, rr, case, []
        self.refs, self.n_g = {}, 0

    def after(self):
        return {n: int(bool(self.hm.settings[n])) if isinstance(self.hm.settings[n], (bool, int)) else 9 for n in NAMES}

    def set(self, name, val):
        self.hm.settings[name] = bool(val)
        self.tr.append({'op': 'set', 'name': name, 'val': int(val), 'after': self.after()})

    def call(self, g, over, fn, watch, exact=None):
        """fn() -> number, array, Series or Varf; watch: objects that must not change"""
        import numpy as np
        import scipy.sparse as ss
        hm = self.hm
        before = copy.deepcopy(watch)
        ev = {'op': 'call', 'g': g, 'over': {k: int(v) for k, v in over.items() if v is not None} or {'none': -1}, 'mat': 0, 'issparse': 0, 'exact': 0}
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                res = fn()
        except Exception as e:
            self.tr.append(dict(ev, raised=1, what=repr(e)[:200], after=self.after()))
            return None
        v = res
        if isinstance(res, hm.Varf):
            v = res.matrix
            ev['mat'] = 1
            ev['issparse'] = int(ss.issparse(v))
            v = v.toarray() if ss.issparse(v) else np.asarray(v)
        elif isinstance(res, hm.Series):
            v = res.coeffs
        v = np.asarray(v)
        if g not in self.refs:
            top = float(np.abs(v).max()) if v.size and np.all(np.isfinite(v)) else 1.
            self.refs[g] = Q / max(top, 1e-3)
        ev['res'] = quant(v, self.refs[g])
        ev['tol'] = 3
        if exact and ev['mat']:
            sp, terms, K, n, lst = exact
            ev.update(exact=1, sp=sp, terms=gal.spec_terms(terms), K=K, deg=n, list=lst, m=gal.mat_ints(v, sp, lst, K))
        same = 1
        for a, b in zip(before, watch):
            for x, y in zip(flat(a), flat(b)):
                if isinstance(x, np.ndarray):
                    same &= int(isinstance(y, np.ndarray) and x.shape == y.shape and x.dtype == y.dtype and bool(np.all(x == y)))
                else:
                    same &= int(x == y)
        self.tr.append(dict(ev, raised=0, args=same, after=self.after()))
        return res


def flat(q):
    import numpy as np
    if isinstance(q, (np.ndarray, list)):
        return [q]
    if hasattr(q, 'quads'):
        return [x for y in q.quads for x in flat(y)] + [list(q.qweights)]
    if hasattr(q, 'coeffs'):
        return [q.coeffs, np.asarray(q.position.mean), np.asarray(q.position.cov), q.degree, q.index_set, str(q.factor.sym)]
    return [q.nodes, q.weights, np.asarray(q.position.mean), np.asarray(q.position.cov), list(q.position.dirs), list(q.position.types), str(q.factor.sym), list(q.do_fourier)]


def functions(rr, dirs, xyz, poly_only, four):
    """expressions: separable, sums, coupled, not polynomial"""
    import sympy
    vs = [xyz[d] for d in dirs]
    one = [lambda v: sympy.cos(v), lambda v: sympy.exp(-v ** 2 / 4), lambda v: sympy.sin(v) + 2, lambda v: 1 / (1 + v ** 2), lambda v: v ** 2 - 1, lambda v: sympy.Integer(3) + 0 * v, lambda v: v]
    if four:
        one = [lambda v: sympy.cos(v), lambda v: sympy.sin(v) + 2, lambda v: sympy.exp(sympy.cos(v)), lambda v: sympy.Integer(2) + 0 * v]
    if poly_only:
        one = [lambda v: v, lambda v: v ** 2 - 1, lambda v: sympy.Integer(3) + 0 * v]
    w = rr.randrange(4)
    f = sympy.Integer(1)
    for v in vs:
        f *= rr.choice(one)(v)
    if w == 1 and len(vs) > 1:
        f += rr.choice(one)(vs[0]) * 2 - rr.choice(one)(vs[-1])
    if w == 2 and len(vs) > 1 and not poly_only:
        f = f * sympy.cos(vs[0] + vs[-1]) if rr.random() < .5 else f + sympy.exp(-(vs[0] - vs[-1]) ** 2 / 8) if not four else sympy.cos(vs[0] - vs[-1]) * f
    if w == 3:
        f = rr.choice(one)(rr.choice(vs))
    return f


def run(case):
    import numpy as np
    import sympy
    from hermipy.compquad import CompQuad
    hm = hermipy()
    rr = random.Random(case['seed'])
    S = Sess(hm, rr, case)
    old = dict(hm.settings)
    scratch = os.path.join(os.environ['VERIF_SCRATCH'], 'c15-%d' % os.getpid())
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        hm.settings['cachedir'] = scratch
        for n in NAMES:
            hm.settings[n] = n == 'tensorize'
        session(hm, rr, S, case)
    finally:
        hm.settings.clear()
        hm.settings.update(old)
        shutil.rmtree(scratch, ignore_errors=True)
    return S.tr


def session(hm, rr, S, case):
    import numpy as np
    import sympy
    from hermipy.compquad import CompQuad
    kind, D = case['kind'], case['dim']
    xyz = hm.Function.xyz
    four = case['four']
    types, pairs = None, True
    if four:
        # without the cosine of every sine, derivatives of a function as a whole are refused
        pairs = D == 1 or rr.random() < .6
        kind = kind if D == 1 else 'cube' if pairs else kind
        types = [rr.choice('hf') for _ in range(D)]
        types[rr.randrange(D)] = 'f'
    cap = {1: 8, 2: 18, 3: 20}[D]
    dirs = sorted(rr.sample(range(5), D))
    # a polynomial operator whose matrix the specification knows
    for _ in range(2000):
        sp = gal.rand_space(rr, D, types, mu=1, sgs=(1, 1, 2))
        n = gal.degree_for(kind, D, rr, cap, even=bool(types), hi=6)
        terms = [gal.rand_term(rr, sp, 2, 3, rr.randint(0, 2) if pairs else 0) for _ in range(rr.randint(1, 3))]
        if gal.mono_bound(sp, terms, n) < 1e8:
            break
    lst = tens.lst(kind, D, n)
    npt = gal.need_points(sp, terms, max(n, 1), 2)
    rho = 1
    if case['fac'] and not four:
        rho = sympy.Integer(1)
        for d in dirs:
            rho *= sympy.exp(-xyz[d] ** 2 / rr.choice([4, 8]))
        if case['fac'] == 2 and D > 1:
            rho *= sympy.exp(-xyz[dirs[0]] * xyz[dirs[1]] / 16)
    quad = gal.quad(sp, dirs, npt, factor=rho)
    comp = case['comp'] and not four
    one = quad
    if comp:
        quad = CompQuad([gal.quad(sp, dirs, npt + i, factor=rho) for i in range(2)], [2, -1])
    K = [max(t['d'][i] for t in terms) for i in range(D)]
    expr = gal.sym_op(terms, dirs, sp)
    mults = [t for t in terms]
    reqs = []

    def add(name, fn, mat=False, tens_kw=False, sparse_kw=False, exact=None, watch=()):
        reqs.append((len(reqs) + 1, name, fn, mat, tens_kw, sparse_kw, exact, [quad] + list(watch)))

    def fun(f):
        return rr.choice([lambda: f, lambda: gal.any_function(rr, f, dirs), lambda: str(f)])()
    kset = {} if kind == 'triangle' and rr.random() < .5 else {'index_set': kind}
    f1 = fun(functions(rr, dirs, xyz, False, four))
    add('integrate', lambda **k: quad.integrate(f1, **k), tens_kw=not comp)
    if not comp:
        f2 = fun(functions(rr, dirs, xyz, False, four))
        add('flat', lambda **k: quad.integrate(f2, flat=True, **k), tens_kw=True)
    f3 = fun(functions(rr, dirs, xyz, False, four))
    add('transform', lambda **k: quad.transform(f3, n, **k, **kset), tens_kw=not comp)
    f4 = fun(functions(rr, dirs, xyz, False, four))
    add('varf', lambda **k: quad.varf(f4, n, **k, **kset), mat=True, tens_kw=not comp, sparse_kw=True)
    dd = [rr.choice(dirs) for _ in range(rr.choice([1, 2]))] if pairs else []
    add('varfd', lambda **k: quad.varfd(f4, n, dd, **k, **kset), mat=True, tens_kw=not comp, sparse_kw=True)
    z = [dict(t, d=[0] * D) for t in terms]
    f5 = fun(gal.sym_fun(z, dirs, sp))
    add('varf', lambda **k: quad.varf(f5, n, **k, **kset), mat=True, tens_kw=not comp, sparse_kw=True, exact=(sp, z, [0] * D, n, lst))
    op = expr if expr != 0 else hm.Operator(expr, dirs=list(dirs))
    if rr.random() < .5 and expr != 0:
        op = hm.Operator(expr)
    ex = (sp, terms, K, n, lst) if rho == 1 else None
    add('op', lambda **k: quad.discretize_op(op, n, **k, **kset), mat=True, sparse_kw=True, exact=ex)
    # arrays as arguments
    if not comp:
        # rounded coefficients (sevenths are never half-way)
        f6 = fun(gal.sym_fun(z, dirs, sp) / 7)
        sig = rr.choice([1, 2, 3])
        add('rtransform', lambda **k: quad.transform(f6, n, significant=sig, **k, **kset), tens_kw=True)
        grid = one.discretize(f1)
        add('garray', lambda **k: quad.integrate(grid, **k), tens_kw=True, watch=[grid])
        add('flatarray', lambda **k: quad.integrate(grid, flat=True, **k), tens_kw=True, watch=[grid])
        add('tarray', lambda **k: quad.transform(grid, n, **k, **kset), tens_kw=True, watch=[grid])
        add('varray', lambda **k: quad.varf(grid, n, **k, **kset), mat=True, tens_kw=True, sparse_kw=True, watch=[grid])
        ser = hm.Series(np.array([float(v) for v in tens.entries(rr, len(lst))]), one.position, index_set=kind, factor=one.factor)
        add('eval', lambda **k: quad.eval(ser), watch=[ser])
        if rho == 1:
            add('iseries', lambda **k: quad.integrate(ser, **k), tens_kw=True, watch=[ser])
            add('nseries', lambda **k: quad.norm(ser, n=rr.choice([2])), watch=[ser])
            add('fseries', lambda **k: quad.integrate(ser, flat=True, **k), tens_kw=True, watch=[ser])
        arr = np.array([v + rr.randint(-400, 400) / 1024 for v in tens.entries(rr, len(lst))])
        add('series', lambda **k: hm.Series(arr, one.position, index_set=kind, significant=2), watch=[arr])
    rr.shuffle(reqs)
    reqs = reqs[:10]
    rounds = [[]]
    for _ in range(4):
        rounds.append(rr.sample(NAMES, rr.choice([1, 1, 2])))
    for flips in rounds:
        for nm in flips:
            S.set(nm, 1 - int(bool(hm.settings[nm])))
        for g, name, fn, mat, tk, sk, exact, watch in reqs:
            if flips and rr.random() < .35:
                continue
            over, kw = {}, {}
            if tk and rr.random() < .5:
                kw['tensorize'] = rr.choice([True, False, None])
                over['tensorize'] = kw['tensorize']
            if sk and rr.random() < .5:
                kw['sparse'] = rr.choice([True, False, None])
                over['sparse'] = kw['sparse']
            S.call(g, over, lambda: fn(**kw), watch, exact)
            if rr.random() < .3:
                S.call(g, {}, lambda: fn(), watch, exact)
    # options given by position
    if not comp:
        for sv in (True, False):
            S.call(900 + int(sv), {'sparse': sv}, lambda: quad.varf(f5, n, sv, kind), [quad], (sp, z, [0] * D, n, lst))
            S.call(910 + int(sv), {'sparse': sv}, lambda: quad.discretize_op(op, n, sv, kind), [quad], ex)
        S.call(921, {'sparse': True}, lambda: quad.varfd(f5, n, dd, True, kind), [quad])
