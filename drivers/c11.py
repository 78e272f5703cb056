"""C11: Fourier and mixed Fourier/Hermite expansions."""
import math
import random

from drivers import c10, gal, tens
from drivers.common import hermipy, ints, rng

TRACE = 'T_Galerkin'
MC = [('MC_Galerkin', 'MC_Galerkin')]
ASSUMPTIONS = ['even degrees; sets that keep sine/cosine pairs for untensorized derivatives',
               'integer deviations (period 2 pi times an integer) and means']


def type_mixes(r, D):
    while True:
        t = [r.choice('hf') for _ in range(D)]
        if 'f' in t:
            return t


def cases(seed, tier, ctx):
    r = rng(seed, 'c11')
    out = []
    reps = 3 if tier == 'quick' else 12
    S = lambda: r.randint(0, 10**9)
    for D in (1, 2, 3):
        for kind in ('triangle', 'cube', 'cross', 'rectangle', 'cross_nc'):
            for how in ('tens', 'direct'):
                for sparse in (0, 1):
                    for _ in range(reps):
                        # derivatives of the whole function need the cosine of every sine in the set
                        pairs = how == 'tens' or D == 1 or kind == 'cube'
                        out.append({'t': 'mat', 'kind': kind, 'dim': D, 'types': type_mixes(r, D), 'how': how,
                                    'sparse': sparse, 'order': r.choice([0, 0, 1, 1, 2, 3]) if pairs else 0,
                                    'labels': sorted(r.sample(range(5), D)), 'seed': S()})
            for _ in range(reps):
                out.append({'t': 'trans', 'kind': kind, 'dim': D, 'types': type_mixes(r, D),
                            'labels': sorted(r.sample(range(5), D)), 'seed': S(),
                            'how': r.choice(['expr', 'grid', 'direct'])})
    for deg in (0, 2, 4, 8, 12, 16, 30, 60):
        out.append({'t': 'mat', 'kind': 'triangle', 'dim': 1, 'types': ['f'], 'how': r.choice(['tens', 'direct']),
                    'sparse': r.randint(0, 1), 'order': r.choice([0, 1, 2]), 'deg': deg, 'labels': [r.randint(0, 4)],
                    'seed': S()})
    sp = [{'t': 'f', 'mu': 0, 'sg': 1}] * 2
    for kind in ('triangle', 'cross', 'cross_nc', 'rectangle'):
        out.append({'t': 'mat', 'kind': kind, 'dim': 2, 'types': ['f', 'f'], 'how': 'direct', 'sparse': 0,
                    'order': 0, 'deg': 2, 'labels': [0, 1], 'seed': 1, 'sp': sp,
                    'terms': [{'c': 1, 'f': [['c', 2], ['c', 2]], 'd': [0, 0]}]})
    for deg in (4, 8):
        for sparse in (0, 1):
            out.append({'t': 'mat', 'kind': 'rectangle', 'dim': 2, 'types': type_mixes(r, 2), 'how': 'direct',
                        'sparse': sparse, 'order': r.choice([1, 2]), 'deg': deg, 'labels': sorted(r.sample(range(5), 2)),
                        'seed': S()})
    for deg in (0, 2, 4, 6, 8, 10):
        out.append({'t': 'triple', 'deg': deg})
    for deg in (1, 3, 5):
        out.append({'t': 'odd', 'deg': deg, 'seed': S(), 'labels': [0]})
    return out


def run(case):
    import numpy as np
    import sympy
    hm = hermipy()
    if case['t'] == 'triple':
        return [gal.triple_ev('f', case['deg'])]
    rr = random.Random(case['seed'])
    lab = case['labels']
    if case['t'] == 'odd':
        q = hm.Quad.fourier(9, dirs=lab)
        tr = []
        for f in (lambda: q.transform('cos(x)', case['deg']), lambda: q.varf('cos(x)', case['deg']),
                  lambda: hm.core.triple_products_fourier(case['deg'])):
            try:
                f()
                tr.append({'op': 'refused', 'raised': 0})
            except Exception:
                tr.append({'op': 'refused', 'raised': 1})
        return tr
    kind, D, types = case['kind'], case['dim'], case['types']
    if case['t'] == 'mat':
        n, sp, terms, d = c10.setup_case(case, rr, {1: 11, 2: 30, 3: 30}[D], types, even=True)
        lst = tens.lst(kind, D, n)
        sc = 0 if 'terms' in case else rr.choice(gal.SCALES)
        e = gal.sym_fun(terms, lab, sp) * sympy.Integer(2) ** sc
        q = gal.quad(sp, lab, gal.need_points(sp, terms, max(n, 1)))
        dirs = sum([[lab[i]] * d[i] for i in range(D)], [])
        rr.shuffle(dirs)
        kw = {'sparse': bool(case['sparse']), 'index_set': kind}
        if case['how'] == 'direct':
            kw['tensorize'] = False
        v = q.varfd(e, n, dirs, **kw) if dirs or rr.random() < .3 else q.varf(e, n, **kw)
        return [{'op': 'mat', 'kind': kind, 'deg': n, 'sp': sp, 'terms': gal.spec_terms(terms), 'K': d, 'list': lst,
                 'res': gal.mat_ints(v.matrix, sp, lst, d, sc), 'issparse': tens.issp(v.matrix),
                 'wantsparse': case['sparse']}]
    # transform: recover the coefficients of a combination of basis functions, then evaluate
    n = gal.degree_for(kind, D, rr, {1: 9, 2: 18, 3: 18}[D], even=True)
    lst = tens.lst(kind, D, n)
    sp = gal.rand_space(rr, D, types)
    k = [rr.randint(-3, 3) if rr.random() < .6 else 0 for _ in lst]
    xyz = hm.Function.xyz
    expr = sympy.Integer(0)
    for c, m in zip(k, lst):
        t = sympy.Integer(c)
        for d, s, a in zip(lab, sp, m):
            y = (xyz[d] - s['mu']) / sympy.Integer(s['sg'])
            if s['t'] == 'h':
                t *= sum(v * y ** e for e, v in enumerate(gal.he_poly(a)))
            elif a:
                t *= (sympy.sin if a % 2 else sympy.cos)((a + 1) // 2 * y)
        expr += t
    expr = sympy.expand(expr)
    q = gal.quad(sp, lab, n + 3)
    if case['how'] == 'grid':
        s = q.transform(q.discretize(expr), n, index_set=kind)
    else:
        s = q.transform(expr, n, index_set=kind, tensorize=case['how'] != 'direct')
    sc = np.array([gal.scale(types, m) for m in lst])
    tr = [{'op': 'recover', 'kind': kind, 'deg': n, 'list': lst, 'coeffs': k,
           'res': ints(np.asarray(s.coeffs) / sc, 1e-5) if len(s.coeffs) == len(lst) else []}]
    # evaluation at angles that are multiples of pi/2 (pi/3), shifted quadrature
    ut = [{'h': 'h'}.get(t, rr.choice('qt')) for t in types]
    u = {'h': 1., 'q': math.pi / 2, 't': math.pi / 3}
    cnt = rr.choice([1, 2, 3])
    nodes = [[rr.randint(-2, 2) if t == 'h' else rr.randint(-6, 6) for _ in range(cnt)] for t in ut]
    scu = np.array([gal.scale(ut, m) for m in lst])
    s2 = hm.Series(np.array(k, dtype=float) * scu, q.position, index_set=kind)
    sh = [rr.randint(-1, 1) for _ in ut]
    pos2 = hm.Position(dirs=list(lab), mean=[x['mu'] + x['sg'] * y * u[t] for x, y, t in zip(sp, sh, ut)],
                       cov=np.diag([float(x['sg'] ** 2) for x in sp]), types=list(q.position.types))
    q2 = hm.Quad([[x * u[t] for x in v] for v, t in zip(nodes, ut)], [[1.] * cnt] * D, position=pos2)
    tr.append({'op': 'backward', 'kind': kind, 'deg': n, 'list': lst, 'types': ut,
               'nodes': [[x + y for x in v] for v, y in zip(nodes, sh)], 'coeffs': k, 'res': ints(q2.eval(s2), 1e-5)})
    return tr
