"""C02: listings are nested by degree; sub-degree of series and matrices."""
from drivers.c01 import high
from drivers.common import hermipy, ints, listing, raises, rng

TRACE = 'T_Index'
MC = [('MC_Iter', 'MC_Iter')]
NESTED = ['triangle', 'cube', 'cross', 'rectangle']
# listings are compared along chains of consecutive degrees up to these
CHAIN = {'triangle': {1: 250, 2: 70, 3: 24, 4: 12, 5: 9},
         'cube': {1: 250, 2: 50, 3: 14, 4: 7, 5: 4},
         'cross': {1: 250, 2: 120, 3: 48, 4: 24, 5: 14},
         'rectangle': {1: 250, 2: 70, 3: 22, 4: 11, 5: 7}}
CHAIN_T = {'triangle': {1: 250, 2: 160, 3: 50, 4: 22, 5: 14},
           'cube': {1: 250, 2: 120, 3: 30, 4: 11, 5: 7},
           'cross': {1: 250, 2: 250, 3: 120, 4: 60, 5: 30},
           'rectangle': {1: 250, 2: 160, 3: 50, 4: 20, 5: 12}}
SUBMAX = {1: 40, 2: 12, 3: 7, 4: 4, 5: 3}


def cases(seed, tier, ctx):
    out = []
    r = rng(seed, 'c02')
    chain = CHAIN if tier == 'quick' else CHAIN_T
    for k in NESTED:
        for d in range(1, 6):
            cap = chain[k][d]
            # overlapping chains keep the sessions short
            step = 25 if d == 1 else 10
            for a in range(0, cap, step):
                out.append({'t': 'chain', 'kind': k, 'dim': d,
                            'degs': list(range(a, min(cap, a + step) + 1))})
            # jumps
            for _ in range(2):
                js = sorted(r.sample(range(0, cap + 1), 3))
                out.append({'t': 'chain', 'kind': k, 'dim': d, 'degs': js})
        for d in (6, 7, 8, 9):
            out.append({'t': 'chain', 'kind': k, 'dim': d, 'degs': high(k, d, 1500 if tier == 'quick' else 6000)})
    reps = 3 if tier == 'quick' else 20
    for k in NESTED:
        for d in range(1, 6):
            top = SUBMAX[d]
            for _ in range(reps):
                n = r.randint(1, top)
                subs = [r.randint(0, n) for _ in range(2)] + [n, n - 1, r.randint(n, top + 2), n + 1]
                out.append({'t': 'series', 'kind': k, 'dim': d, 'deg': n, 'subs': subs,
                            'seed': r.randint(0, 10**6),
                            'labels': sorted(r.sample(range(5), d))})
            for _ in range(reps):
                n = r.randint(1, min(top, {1: 25, 2: 7, 3: 4, 4: 2, 5: 2}[d]))
                for sp in (0, 1):
                    out.append({'t': 'varf', 'kind': k, 'dim': d, 'deg': n,
                                'subs': sorted(set([0, n, r.randint(0, n), max(0, n - 1)])),
                                'sparse': sp, 'seed': r.randint(0, 10**6),
                                'labels': sorted(r.sample(range(5), d))})
            out.append({'t': 'toohigh', 'kind': k, 'dim': d, 'deg': r.randint(1, 2)})
    for d in range(1, 4):
        for n in (2, 3, 5):
            for s in (1, n, n + 1):
                out.append({'t': 'nc', 'dim': d, 'deg': n, 'sub': s})
    return out


def run(case):
    import random
    import numpy as np
    import scipy.sparse as ss
    hm = hermipy()
    k, d, tr = case.get('kind'), case['dim'], []
    if case['t'] == 'chain':
        for i, n in enumerate(case['degs']):
            tr.append({'op': 'list' if i == 0 else 'nextlist', 'kind': k, 'dim': d, 'deg': n,
                       'list': listing(k, d, n)})
        return tr
    if case['t'] == 'nc':
        n = case['deg']
        pos = hm.Position(dim=d, dirs=list(range(d)))
        s = hm.Series(np.ones(len(listing('cross_nc', d, n))), pos, index_set='cross_nc')
        tr.append({'op': 'refused', 'raised': raises(lambda: s.subdegree(case['sub']))})
        v = hm.Varf(np.diag(s.coeffs), pos, index_set='cross_nc')
        tr.append({'op': 'refused', 'raised': raises(lambda: v.subdegree(case['sub']))})
        v = hm.Varf(ss.csr_matrix(v.matrix), pos, index_set='cross_nc')
        tr.append({'op': 'refused', 'raised': raises(lambda: v.subdegree(case['sub']))})
        return tr
    rr = random.Random(case.get('seed', 0))
    n = case['deg']
    lst = listing(k, d, n)
    N = len(lst)
    if case['t'] == 'toohigh':
        pos = hm.Position(dim=d, dirs=list(range(d)))
        v = hm.Varf(np.eye(N), pos, index_set=k)
        return [{'op': 'refused', 'raised': raises(lambda: v.subdegree(n + 1))}]
    pos = hm.Position(dim=d, dirs=case['labels'])
    if case['t'] == 'series':
        c = [rr.randint(-9999, 9999) for _ in range(N)]
        if case['seed'] % 3 == 0:
            # complex coefficients (eigenvectors)
            ci = [rr.randint(-9999, 9999) for _ in range(N)]
            s = hm.Series(np.array(c) + 1j * np.array(ci), pos, index_set=k)
            for sub in case['subs']:
                q = s.subdegree(sub)
                for x, y in ((c, np.real(q.coeffs)), (ci, np.imag(q.coeffs))):
                    tr.append({'op': 'subseries', 'kind': k, 'dim': d, 'deg': n, 'sub': sub, 'list': lst,
                               'sublist': listing(k, d, sub), 'coeffs': x, 'res': ints(y), 'resdeg': int(q.degree)})
            return tr
        s = hm.Series(np.array(c, dtype=float), pos, index_set=k)
        for sub in case['subs']:
            q = s.subdegree(sub)
            tr.append({'op': 'subseries', 'kind': k, 'dim': d, 'deg': n, 'sub': sub, 'list': lst,
                       'sublist': listing(k, d, sub), 'coeffs': c, 'res': ints(q.coeffs),
                       'resdeg': int(q.degree)})
        # the original is unchanged, whatever was derived from it
        q = s.subdegree(n)
        tr.append({'op': 'subseries', 'kind': k, 'dim': d, 'deg': n, 'sub': n, 'list': lst,
                   'sublist': lst, 'coeffs': c, 'res': ints(s.coeffs), 'resdeg': int(s.degree)})
        return tr
    m = [[rr.choice([0, 0, rr.randint(-99, 99)]) for _ in range(N)] for _ in range(N)]
    a = np.array(m, dtype=float)
    v = hm.Varf(ss.csr_matrix(a) if case['sparse'] else a, pos, index_set=k)
    for sub in case['subs']:
        q = v.subdegree(sub).matrix
        q = q.toarray() if ss.issparse(q) else np.asarray(q)
        tr.append({'op': 'subvarf', 'kind': k, 'dim': d, 'deg': n, 'sub': sub, 'list': lst,
                   'sublist': listing(k, d, sub), 'mat': m, 'res': [ints(row) for row in q]})
    return tr
