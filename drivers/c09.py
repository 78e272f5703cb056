"""C09: matrices of multiplication."""
import random

from drivers import gal, tens
from drivers.common import KINDS, hermipy, rng

TRACE = 'T_Galerkin'
MC = [('MC_Galerkin', 'MC_Galerkin')]
ASSUMPTIONS = ['integer polynomials, means and deviations; the quadrature is exact for the products involved']


def cases(seed, tier, ctx):
    r = rng(seed, 'c09')
    out = []
    reps = 2 if tier == 'quick' else 10
    for kind in KINDS:
        for D in (1, 2, 3, 4):
            if kind == 'cross_nc' and D == 4 and tier == 'quick':
                continue
            for how in ('tens', 'direct', 'grid'):
                for sparse in (0, 1):
                    for _ in range(reps if D < 4 else max(1, reps // 2)):
                        out.append({'kind': kind, 'dim': D, 'how': how, 'sparse': sparse,
                                    'labels': sorted(r.sample(range(5), D)), 'seed': r.randint(0, 10**9)})
            out.append({'kind': kind, 'dim': D, 'how': 'core', 'sparse': r.randint(0, 1), 'deg': 0,
                        'labels': sorted(r.sample(range(5), D)), 'seed': r.randint(0, 10**9)})
            for _ in range(2):
                out.append({'kind': kind, 'dim': D, 'how': 'core', 'sparse': r.randint(0, 1),
                            'labels': sorted(r.sample(range(5), D)), 'seed': r.randint(0, 10**9)})
    for D in (1, 2, 3):
        for how in ('tens', 'direct', 'grid', 'core'):
            for _ in range(2 * reps):
                out.append({'kind': r.choice(KINDS), 'dim': D, 'how': how, 'sparse': r.randint(0, 1), 'mix': 1,
                            'deg': r.choice([1, 2, 3, 4] if D == 1 else [1, 2]),
                            'labels': sorted(r.sample(range(5), D)), 'seed': r.randint(0, 10**9)})
    for deg in (10, 14, 20, 25, 40, 70) + ((100,) if tier != 'quick' else ()):
        out.append({'kind': 'triangle', 'dim': 1, 'how': r.choice(['tens', 'grid']), 'sparse': r.randint(0, 1),
                    'labels': [1], 'deg': deg, 'seed': r.randint(0, 10**9)})
    for deg in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9):
        out.append({'how': 'triple', 'deg': deg, 'key': 'triple-%d' % deg})
    for kind in ('cross', 'cross_nc'):
        out.append({'kind': kind, 'dim': 2, 'how': 'direct', 'sparse': 0, 'labels': [0, 1], 'deg': 3, 'seed': 1,
                    'terms': [{'c': 1, 'f': [['x', 3], ['x', 3]], 'd': [0, 0]}],
                    'sp': [{'t': 'h', 'mu': 0, 'sg': 1}] * 2, 'key': kind + '-direct-x3y3'})
    return out


def setup_case(case, rr, cap):
    kind, D = case['kind'], case['dim']
    n = case['deg'] if 'deg' in case else gal.degree_for(kind, D, rr, cap)
    big = n > 12
    sp = case.get('sp') or gal.rand_space(rr, D, mu=1 if big else 2, sgs=(1,) if big else (1, 1, 2, 3))
    if 'terms' in case:
        return n, sp, case['terms']
    tot, amax = (2, 2) if big else (5, 4)
    while True:
        terms = [gal.rand_term(rr, sp, amax, tot) for _ in range(rr.randint(1, 3) + ('mix' in case))]
        if 'mix' in case:
            terms = gal.mix_scales(rr, terms)
        if gal.mono_bound(sp, terms, n) < 1e9:
            return n, sp, terms


def run(case):
    import numpy as np
    import sympy
    import hermipy.core as core
    hm = hermipy()
    if case['how'] == 'triple':
        return [gal.triple_ev('h', case['deg'])]
    rr = random.Random(case['seed'])
    kind, D, lab, sparse = case['kind'], case['dim'], case['labels'], case['sparse']
    n, sp, terms = setup_case(case, rr, {1: 13, 2: 30, 3: 28, 4: 26}[D])
    lst = tens.lst(kind, D, n)
    sc = 0 if 'terms' in case else rr.choice(gal.SCALES)
    e = gal.sym_fun(terms, lab, sp) * sympy.Integer(2) ** sc
    npt = gal.need_points(sp, terms, max(n, 1))
    kw = {'sparse': bool(sparse), 'index_set': kind}
    if case['how'] == 'core':
        # different numbers of nodes per direction
        nodes, weights = [], []
        for i in range(D):
            q1 = gal.quad([sp[i]], [lab[i]], npt + rr.randint(0, 2))
            nodes.append(q1.nodes[0])
            weights.append(q1.weights[0])
        vals = []
        for p in np.ndindex(*map(len, nodes)):
            x = [sp[i]['mu'] + sp[i]['sg'] * nodes[i][p[i]] for i in range(D)]
            vals.append(sum(t['c'] * np.prod([x[i] ** t['f'][i][1] for i in range(D)]) for t in terms))
        res = core.varf(n, np.array(vals) * 2. ** sc, nodes, weights, **kw)
    else:
        q = gal.quad(sp, lab, npt)
        if case['how'] == 'grid':
            v = q.varf(q.discretize(e), n, **kw)
        elif case['how'] == 'direct':
            v = q.varf(e, n, tensorize=False, **kw)
        else:
            v = q.varf(gal.any_function(rr, e, lab) if rr.random() < .5 else e, n, **kw)
        res = v.matrix
    return [{'op': 'mat', 'kind': kind, 'deg': n, 'sp': sp, 'terms': gal.spec_terms(terms), 'K': [0] * D,
             'list': lst, 'res': gal.mat_ints(res, sp, lst, [0] * D, sc), 'issparse': tens.issp(res),
             'wantsparse': sparse}]
