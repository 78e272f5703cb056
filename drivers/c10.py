"""C10: matrices of f times a derivative (Hermite directions)."""
import random

from drivers import gal, tens
from drivers.common import KINDS, hermipy, rng
from drivers.c09 import ASSUMPTIONS

TRACE = 'T_Galerkin'
MC = [('MC_Galerkin', 'MC_Galerkin')]


def cases(seed, tier, ctx):
    r = rng(seed, 'c10')
    out = []
    reps = 3 if tier == 'quick' else 12
    for kind in KINDS:
        for D in (1, 2, 3, 4):
            if kind == 'cross_nc' and D == 4 and tier == 'quick':
                continue
            for how in ('tens', 'direct'):
                for sparse in (0, 1):
                    for _ in range(reps if D < 4 else 1):
                        out.append({'kind': kind, 'dim': D, 'how': how, 'sparse': sparse,
                                    'order': r.choice([1, 1, 2, 2, 3, 4]),
                                    'labels': sorted(r.sample(range(5), D)), 'seed': r.randint(0, 10**9)})
            for _ in range(2):
                out.append({'kind': kind, 'dim': D, 'how': 'core', 'sparse': r.randint(0, 1), 'order': 1,
                            'labels': sorted(r.sample(range(5), D)), 'seed': r.randint(0, 10**9)})
    for deg in (16, 30, 60):
        out.append({'kind': 'triangle', 'dim': 1, 'how': r.choice(['tens', 'direct']), 'sparse': r.randint(0, 1),
                    'order': r.choice([1, 2]), 'labels': [r.randint(0, 4)], 'deg': deg, 'seed': r.randint(0, 10**9)})
    return out


def setup_case(case, rr, cap, types=None, even=False):
    kind, D = case['kind'], case['dim']
    if 'terms' in case:
        return case['deg'], case['sp'], case['terms'], case['terms'][0]['d']
    for _ in range(2000):
        n = case['deg'] if 'deg' in case else gal.degree_for(kind, D, rr, cap, even=even)
        sp = gal.rand_space(rr, D, types)
        amax = 3 if n < 13 else 1
        terms = [gal.rand_term(rr, sp, amax, 4) for _ in range(rr.randint(1, 2))]
        d = [0] * D
        for _ in range(case['order']):
            d[rr.randrange(D)] += 1
        for t in terms:
            t['d'] = d
        if gal.mono_bound(sp, terms, n) < 1e9:
            return n, sp, terms, d
    raise RuntimeError('no case')


def run(case):
    import numpy as np
    import sympy
    import scipy.sparse as ss
    import hermipy.core as core
    hm = hermipy()
    rr = random.Random(case['seed'])
    kind, D, lab, sparse = case['kind'], case['dim'], case['labels'], case['sparse']
    n, sp, terms, d = setup_case(case, rr, {1: 12, 2: 28, 3: 26, 4: 22}[D])
    lst = tens.lst(kind, D, n)
    if case['how'] == 'core':
        # derivative of an arbitrary matrix, entry by entry
        m = tens.matrix(rr, len(lst), .4)
        k = d.index(1)
        a = np.array(m, dtype=float)
        S = np.array([gal.scale(['h'] * D, x) for x in lst])
        sc = rr.choice(gal.SCALES + [-60])
        a = a * S[:, None] / S[None, :] * 2. ** sc
        res = core.varfd(D, n, k, ss.csr_matrix(a) if sparse else a, index_set=kind)
        return [{'op': 'dmat', 'kind': kind, 'deg': n, 'list': lst, 'dir': k + 1, 'm': m,
                 'res': gal.mat_ints(res, [{'t': 'h', 'mu': 0, 'sg': 1}] * D, lst, [0] * D, sc),
                 'issparse': tens.issp(res), 'wantsparse': sparse}]
    sc = 0 if 'terms' in case else rr.choice(gal.SCALES)
    e = gal.sym_fun(terms, lab, sp) * sympy.Integer(2) ** sc
    q = gal.quad(sp, lab, gal.need_points(sp, terms, max(n, 1)))
    dirs = sum([[lab[i]] * d[i] for i in range(D)], [])
    rr.shuffle(dirs)
    kw = {'sparse': bool(sparse), 'index_set': kind}
    if case['how'] == 'direct':
        kw['tensorize'] = False
    v = q.varfd(hm.Function(e, dirs=list(lab)) if rr.random() < .5 else e, n, dirs, **kw)
    return [{'op': 'mat', 'kind': kind, 'deg': n, 'sp': sp, 'terms': gal.spec_terms(terms), 'K': d,
             'list': lst, 'res': gal.mat_ints(v.matrix, sp, lst, d, sc), 'issparse': tens.issp(v.matrix),
             'wantsparse': sparse}]
