"""C07: the transforms are the defining sums; polynomials are recovered."""
import math
import random

from drivers import gal, tens
from drivers.common import KINDS, as_int, hermipy, ints, rng

TRACE = 'T_Galerkin'
MC = [('MC_Galerkin', 'MC_Galerkin')]
ASSUMPTIONS = ['integer nodes, weights, values and monic coefficients: every expected number is an integer, '
               'results further than 1e-6 (relative) from an integer are rejected']


def cases(seed, tier, ctx):
    r = rng(seed, 'c07')
    out = []
    reps = 3 if tier == 'quick' else 8
    for kind in KINDS:
        for D in range(1, 5 if kind == 'cross_nc' else 6):
            for _ in range((5 if D < 4 else 3) * reps):
                types = [r.choice('hhhqt') for _ in range(D)] if r.random() < .4 else ['h'] * D
                out.append({'t': 'core', 'kind': kind, 'types': types,
                            'fwd': r.randint(0, 1), 'seed': r.randint(0, 10**9),
                            'cap': r.choice([8, 30, 60]) if D < 5 else 32})
            out.append({'t': 'core', 'kind': kind, 'types': ['h'] * D, 'fwd': 1, 'deg': 0,
                        'seed': r.randint(0, 10**9), 'cap': 8})
            out.append({'t': 'core', 'kind': kind, 'types': ['h'] * D, 'fwd': 0, 'deg': r.choice([0, 1]),
                        'seed': r.randint(0, 10**9), 'cap': 8})
        for D in (1, 2, 3):
            for _ in range(2 * reps):
                lab = sorted(r.sample(range(5), D))
                out.append({'t': 'quad', 'kind': kind, 'dim': D, 'labels': lab, 'seed': r.randint(0, 10**9),
                            'how': r.choice(['expr', 'grid', 'direct']), 'fac': r.randint(0, 1)})
        for D in (2, 3):
            for _ in range(2 * reps):
                out.append({'t': 'nondiag', 'kind': kind, 'dim': D, 'seed': r.randint(0, 10**9)})
        for D in (1, 2, 2, 3):
            for _ in range(reps):
                out.append({'t': 'basis', 'kind': kind, 'dim': D, 'labels': sorted(r.sample(range(5), D)),
                            'seed': r.randint(0, 10**9)})
        out.append({'t': 'tofun', 'kind': kind, 'dim': r.choice([1, 2]), 'seed': r.randint(0, 10**9)})
    for deg in (10, 11, 12):
        for fwd in (0, 1):
            out.append({'t': 'core', 'kind': 'triangle', 'types': ['h'], 'fwd': fwd, 'deg': deg,
                        'seed': r.randint(0, 10**9), 'cap': 8})
    # far nodes, many nodes, zero weights
    for kind in KINDS:
        for D in (1, 1, 2, 3):
            for fwd in (0, 1):
                out.append({'t': 'core', 'kind': kind, 'types': ['h'] * D, 'fwd': fwd, 'far': 1,
                            'seed': r.randint(0, 10**9), 'cap': 10})
    for D in (1, 1, 2, 2, 3):
        types = [r.choice('hhq') for _ in range(D)]
        for fwd in (0, 1):
            out.append({'t': 'core', 'kind': r.choice(KINDS), 'types': types, 'fwd': fwd, 'many': 1,
                        'seed': r.randint(0, 10**9), 'cap': 6})
    # high degrees: evaluation and transform are inverse of each other
    for D, deg in ((1, 20), (1, 35), (1, 50), (1, 80), (1, 120), (2, 12), (2, 20), (3, 7)):
        out.append({'t': 'high', 'kind': r.choice(KINDS), 'dim': D, 'deg': deg, 'four': 0, 'seed': r.randint(0, 10**9)})
        out.append({'t': 'high', 'kind': r.choice(KINDS), 'dim': D, 'deg': deg - deg % 2, 'four': 1,
                    'seed': r.randint(0, 10**9)})
    return out


def small_list(kind, D, cap, rr, types):
    hi = tens.max_deg(kind, D, cap)
    n = rr.choice([hi, rr.randint(1, hi)])
    n = min(n, 9)
    if any(t != 'h' for t in types):
        n = max(2, n - n % 2)
    return n


def nd_positions(D):
    """(factor, covariance): integer factor F, orthogonal columns"""
    if D == 2:
        return [[[3, -4], [4, 3]], [[6, -4], [8, 3]], [[4, 3], [-3, 4]]]
    return [[[1, 2, 2], [2, 1, -2], [2, -2, 1]], [[2, 2, 6], [4, 1, -6], [4, -2, 3]]]


def run(case):
    import numpy as np
    import hermipy.core as core
    hm = hermipy()
    rr = random.Random(case['seed'])
    kind = case['kind']
    if case['t'] == 'core':
        types = case['types']
        D = len(types)
        n = case['deg'] if 'deg' in case else small_list(kind, D, case['cap'], rr, types)
        nodes, weights = [], []
        for t in types:
            k = rr.choice([1, 2, 3, 4] if D < 4 else [1, 2, 3])
            nodes.append([rr.randint(-3, 3) if t == 'h' else rr.randint(-7, 7) for _ in range(k)])
            weights.append([rr.choice([-2, -1, 0, 1, 2, 3]) for _ in range(k)])
        if case.get('far'):
            # as far as the integers allow
            n = min(n, 4)
            tot = max(1, max(map(sum, tens.lst(kind, D, n))))
            far = max(5, int(2e6 ** (1 / tot)) - n)
            nodes = [[rr.choice([-1, 1]) * rr.randint(far // 2, far) for _ in range(2)] for _ in types]
            weights = [[rr.choice([-2, -1, 1, 2, 3]) for _ in range(2)] for _ in types]
        if case.get('many'):
            n = min(n, 3) if 'q' not in types else 2
            cnt = [rr.choice(c) for c in {1: [[70, 130, 300]], 2: [[2, 60], [2, 40]], 3: [[2, 9], [3, 9], [1, 9]]}[D]]
            nodes = [[rr.randint(-3, 3) for _ in range(k)] for k in cnt]
            weights = [[rr.choice([-2, -1, 1, 2]) for _ in range(k)] for k in cnt]
        if n > 9:
            nodes = [[max(-2, min(2, x)) for x in v] for v in nodes]
        lst = tens.lst(kind, D, n)
        u = {'h': 1., 'q': math.pi / 2, 't': math.pi / 3}
        fn = [np.array([x * u[t] for x in v]) for v, t in zip(nodes, types)]
        fw = [np.array(v, dtype=float) for v in weights]
        if len(set(map(len, fn))) == 1 and rr.random() < .5:
            fn, fw = np.array(fn), np.array(fw)
        df = [0 if t == 'h' else 1 for t in types]
        kw = {} if not any(df) and rr.random() < .5 else {'do_fourier': df}
        npt = 1
        for v in nodes:
            npt *= len(v)
        if n > 9:
            vals = [rr.randint(-2, 2) for _ in range(npt)]
        else:
            vals = [rr.randint(-9, 9) for _ in range(npt)]
        S = [gal.scale(types, m) for m in lst]
        sc = 2. ** rr.choice([0, 0, 0, -60, -25, 25, 60])
        ev = {'kind': kind, 'deg': n, 'list': lst, 'types': types, 'nodes': nodes, 'weights': weights}
        if case['fwd']:
            res = core.transform(n, np.array(vals, dtype=float) * sc, fn, fw, True, index_set=kind, **kw)
            res = np.asarray(res) / sc
            ev.update(op='forward', vals=vals, res=ints(np.asarray(res) * np.array(S)) if len(res) == len(S)
                      else ints(res))
        else:
            k = [rr.randint(-5, 5) if rr.random() < .7 or len(lst) < 5 else 0 for _ in lst]
            res = core.transform(n, np.array([a * s * sc for a, s in zip(k, S)]), fn, fw, False, index_set=kind, **kw)
            ev.update(op='backward', coeffs=k, res=ints(np.asarray(res) / sc))
        return [ev]
    D = case.get('dim')
    tr = []
    if case['t'] == 'quad':
        cap = {1: 7, 2: 16, 3: 12}[D]
        n = min(rr.randint(1, tens.max_deg(kind, D, cap)), 6)
        lst = tens.lst(kind, D, n)
        sp = gal.rand_space(rr, D)
        k = [rr.randint(-3, 3) if rr.random() < .7 else 0 for _ in lst]
        lab = case['labels']
        rho = 1
        xyz = hm.Function.xyz
        import sympy
        if case['fac']:
            for d in lab:
                rho *= sympy.exp(-sympy.Rational(rr.randint(0, 2), 8) * xyz[d] ** 2)
        q = gal.quad(sp, lab, n + 2, factor=rho)
        xi = [(xyz[d] - s['mu']) / sympy.Integer(s['sg']) for d, s in zip(lab, sp)]
        poly = sympy.Integer(0)
        for c, m in zip(k, lst):
            t = sympy.Integer(c)
            for x, a in zip(xi, m):
                t *= sum(v * x ** e for e, v in enumerate(gal.he_poly(a)))
            poly += t
        poly = sympy.expand(poly)
        f = sympy.expand(poly * rho)
        if case['how'] == 'grid':
            s = q.transform(q.discretize(f), n, index_set=kind)
        elif case['how'] == 'direct':
            s = q.transform(f, n, index_set=kind, tensorize=False)
        else:
            s = q.transform(gal.any_function(rr, f, lab), n, index_set=kind)
        S = np.array([gal.scale(['h'] * D, m) for m in lst])
        res = ints(np.asarray(s.coeffs) / S, 1e-5) if len(s.coeffs) == len(S) else []
        tr.append({'op': 'recover', 'kind': kind, 'deg': n, 'list': lst, 'coeffs': k, 'res': res})
        tr.append({'op': 'same', 'a': [s.index_set, [int(x) for x in s.position.dirs], max(1, int(s.degree))],
                   'b': [kind, lab, n]})
        # evaluation on another quadrature
        qs = [x['sg'] * rr.choice([1, 2]) for x in sp]
        qm = [x['mu'] + x['sg'] * rr.randint(-2, 2) for x in sp]
        cnt = rr.choice([1, 2, 3])
        nodes = [[rr.randint(-2, 2) for _ in range(cnt)] for _ in range(D)]
        q2 = hm.Quad(nodes, [[1.] * cnt] * D, mean=[float(x) for x in qm],
                     cov=np.diag([float(x * x) for x in qs]), dirs=lab)
        v = np.asarray(q2.eval(s))
        if case['fac']:
            fac = []
            fl = sympy.lambdify([xyz[d] for d in lab], rho)
            for p in np.ndindex(*([cnt] * D)):
                fac.append(float(fl(*[qm[i] + qs[i] * nodes[i][p[i]] for i in range(D)])))
            v = v / np.array(fac) if len(v) == len(fac) else v
        tr.append({'op': 'evalat', 'kind': kind, 'deg': n, 'list': lst, 'coeffs': k, 'mean': [x['mu'] for x in sp],
                   'sd': [x['sg'] for x in sp], 'qmean': qm, 'qsd': qs, 'nodes': nodes, 'res': ints(v, 1e-5)})
        return tr
    if case['t'] == 'basis':
        # a series of Hermite and Fourier directions, on a quadrature of any types of directions
        types = [rr.choice('hqt') for _ in range(D)]
        u = {'h': 1., 'q': math.pi / 2, 't': math.pi / 3}
        n = min(small_list(kind, D, 20, rr, types), 6)
        lst = tens.lst(kind, D, n)
        k = [rr.randint(-4, 4) for _ in lst]
        name = {'h': 'hermite', 'q': 'fourier', 't': 'fourier'}
        sd, mean = [rr.choice([1, 1, 2, 3]) for _ in range(D)], [rr.randint(-3, 3) for _ in range(D)]
        qs = [s * rr.choice([1, 2]) for s in sd]
        qm = [m + s * rr.randint(-2, 2) for m, s in zip(mean, sd)]
        cnt = rr.choice([1, 2, 3])
        nodes = [[rr.randint(-2, 2) if t == 'h' else rr.randint(-7, 7) for _ in range(cnt)] for t in types]
        lab = case['labels']
        pos = hm.Position(dirs=lab, mean=[m * u[t] for m, t in zip(mean, types)],
                          cov=np.diag([float(s * s) for s in sd]), types=[name[t] for t in types])
        s = hm.Series(np.array([a * gal.scale(types, m) for a, m in zip(k, lst)]), pos, index_set=kind)
        q2 = hm.Quad([[x * u[t] for x in v] for v, t in zip(nodes, types)], [[1.] * cnt] * D, dirs=lab,
                     mean=[m * u[t] for m, t in zip(qm, types)], cov=np.diag([float(x * x) for x in qs]),
                     types=[name[rr.choice([t, 'h', 'q'])] for t in types])
        return [{'op': 'evalat', 'kind': kind, 'deg': n, 'list': lst, 'coeffs': k, 'mean': mean, 'sd': sd, 'qmean': qm,
                 'qsd': qs, 'nodes': nodes, 'types': types, 'res': ints(q2.eval(s), 1e-5)}]
    if case['t'] == 'high':
        n, four = case['deg'], case['four']
        q = hm.Quad.fourier(n + 3, dirs=list(range(D))) if four else hm.Quad.gauss_hermite(n + 2, dim=D)
        lst = tens.lst(kind, D, n)
        k = [rr.randint(-9, 9) if rr.random() < .3 else 0 for _ in lst]
        s = hm.Series(np.array(k, dtype=float), q.position, index_set=kind)
        s = q.transform(q.eval(s), n, index_set=kind)
        return [{'op': 'recover', 'kind': kind, 'deg': n, 'list': lst, 'coeffs': k, 'res': ints(s.coeffs, 1e-5)}]
    if case['t'] == 'nondiag':
        F = rr.choice(nd_positions(D))
        cov = np.array(F, dtype=float).dot(np.array(F, dtype=float).T)
        mean = [rr.randint(-3, 3) for _ in range(D)]
        pos = hm.Position(mean=[float(x) for x in mean], cov=cov)
        n = min(rr.randint(1, tens.max_deg(kind, D, 14)), 5)
        lst = tens.lst(kind, D, n)
        k = [rr.randint(-3, 3) for _ in lst]
        S = np.array([gal.scale(['h'] * D, m) for m in lst])
        q = hm.Quad.gauss_hermite(n + 2, dim=D, mean=[float(x) for x in mean], cov=cov)
        # values of sum k He_m at the nodes (coordinates of the quadrature)
        vals = []
        for p in np.ndindex(*[len(v) for v in q.nodes]):
            x = [q.nodes[i][p[i]] for i in range(D)]
            vals.append(sum(c * math.prod(gal.he(x[i], m[i]) for i in range(D)) for c, m in zip(k, lst)))
        s = q.transform(np.array(vals), n, index_set=kind)
        tr.append({'op': 'recover', 'kind': kind, 'deg': n, 'list': lst, 'coeffs': k,
                   'res': ints(np.asarray(s.coeffs) / S, 1e-5)})
        sh = [rr.randint(-2, 2) for _ in range(D)]
        mul = rr.choice([1, 2])
        m2 = np.array(mean) + pos.factor.dot(np.array(sh, dtype=float))
        cnt = rr.choice([1, 2, 3])
        nodes = [[rr.randint(-2, 2) for _ in range(cnt)] for _ in range(D)]
        q2 = hm.Quad(nodes, [[1.] * cnt] * D, mean=m2, cov=cov * mul ** 2)
        rel = np.linalg.inv(s.position.factor).dot(q2.position.factor)
        tr.append({'op': 'evalat', 'kind': kind, 'deg': n, 'list': lst, 'coeffs': k, 'mean': [0] * D, 'sd': [1] * D,
                   'qmean': sh, 'qsd': ints([rel[i][i] for i in range(D)]), 'nodes': nodes,
                   'res': ints(q2.eval(s), 1e-5)})
        return tr
    # to_function: the polynomial, evaluated symbolically
    n = min(rr.randint(1, tens.max_deg(kind, D, 9)), 5)
    lst = tens.lst(kind, D, n)
    sp = gal.rand_space(rr, D)
    k = [rr.randint(-3, 3) for _ in lst]
    S = [gal.scale(['h'] * D, m) for m in lst]
    pos = hm.Position(mean=[float(x['mu']) for x in sp], cov=np.diag([float(x['sg'] ** 2) for x in sp]))
    s = hm.Series(np.array([a * b for a, b in zip(k, S)]), pos, index_set=kind)
    fun = s.to_function().as_xyz()
    nodes = [[rr.randint(-2, 2) for _ in range(2)] for _ in range(D)]
    xyz = hm.Function.xyz
    res = []
    for p in np.ndindex(*([2] * D)):
        res.append(float(fun.subs({xyz[i]: sp[i]['mu'] + sp[i]['sg'] * nodes[i][p[i]] for i in range(D)})))
    tr.append({'op': 'evalat', 'kind': kind, 'deg': n, 'list': lst, 'coeffs': k, 'mean': [x['mu'] for x in sp],
               'sd': [x['sg'] for x in sp], 'qmean': [x['mu'] for x in sp], 'qsd': [x['sg'] for x in sp],
               'nodes': nodes, 'res': ints(res, 1e-5)})
    return tr
