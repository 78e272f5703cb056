"""C03: size, rank and degree functions agree with the listings."""
from drivers.c01 import high
from drivers.common import KINDS, hermipy, listing, raises, rng

TRACE = 'T_Index'
MC = [('MC_Iter', 'MC_Iter'), ('MC_Rank', 'MC_Rank')]
# list-based checks (rank of every element)
LIST = {'triangle': {1: 250, 2: 60, 3: 22, 4: 12, 5: 8}, 'cube': {1: 250, 2: 50, 3: 14, 4: 7, 5: 4},
        'cross': {1: 60, 2: 40, 3: 20, 4: 10, 5: 6}, 'cross_nc': {1: 60, 2: 40, 3: 16, 4: 6, 5: 4},
        'rectangle': {1: 100, 2: 50, 3: 20, 4: 10, 5: 6}}
# nested sets: the listing of a large degree contains those of all smaller ones
BIG = {'triangle': {2: [200], 3: [50], 4: [24], 5: [16]}, 'cube': {2: [140], 3: [27], 4: [11], 5: [6]}}
# closed formulas only (TLC integers: counts below 2^31)
SIZE = {'triangle': {1: 250, 2: 250, 3: 250, 4: 250, 5: 180}, 'cube': {1: 250, 2: 250, 3: 250, 4: 200, 5: 70},
        'cross': {1: 250, 2: 250, 3: 250, 4: 120, 5: 60}, 'cross_nc': {1: 250, 2: 120, 3: 40, 4: 12, 5: 6},
        'rectangle': {1: 250, 2: 250, 3: 250, 4: 250, 5: 130}}
# get_degree (the cross_nc search lists the set of degree 250: dimension <= 3)
DEG = {'triangle': SIZE['triangle'], 'cube': SIZE['cube'], 'cross': {1: 250, 2: 250, 3: 250, 4: 60, 5: 12},
       'cross_nc': {1: 250, 2: 120, 3: 16}, 'rectangle': SIZE['rectangle']}


def cases(seed, tier, ctx):
    out = []
    r = rng(seed, 'c03')
    for k in KINDS:
        for d in range(1, 6):
            cap = LIST[k][d]
            ns = list(range(0, cap + 1))
            if tier == 'quick' and len(ns) > 40:
                ns = ns[:14] + sorted(r.sample(ns[14:], 22)) + [cap]
            big = BIG.get(k, {}).get(d, [])
            if tier == 'thorough':
                big = big + [int(1.5 * n) for n in big if d > 1]
            for n in ns + big:
                out.append({'t': 'list', 'kind': k, 'dim': d, 'deg': n})
            cap = SIZE[k][d]
            while k in ('triangle', 'cube', 'rectangle') and size_of(k, d, cap) >= 2 ** 25:
                cap -= 1
            step = 60
            for a in range(0, cap + 1, step):
                out.append({'t': 'size', 'kind': k, 'dim': d,
                            'degs': list(range(a, min(cap + 1, a + step)))})
            cap = DEG[k].get(d, -1)
            while k in ('triangle', 'cube', 'rectangle') and size_of(k, d, cap) >= 2 ** 25:
                cap -= 1
            step = 60 if k in ('triangle', 'cube', 'rectangle') else 12
            for a in range(0, cap + 1, step):
                out.append({'t': 'degree', 'kind': k, 'dim': d,
                            'degs': list(range(a, min(cap + 1, a + step)))})
            if cap >= 0 and (k, d) != ('cross', 5):
                for _ in range(4):
                    n = r.randint(2, max(2, min(cap, 60)))
                    out.append({'t': 'nodegree', 'kind': k, 'dim': d, 'deg': n,
                                'delta': [1, -1, 2, r.randint(3, 9)]})
        for d in range(6, 11):
            ns = [n for n in high(k, d, 1500) if n]
            out += [{'t': 'list', 'kind': k, 'dim': d, 'deg': n} for n in ns]
            if k in ('triangle', 'cube', 'rectangle'):
                n = ns[-1]
                while n < 120 and size_of(k, d, n + 1) < 2 ** 25:
                    n += 1
                for t in ('size', 'degree'):
                    out.append({'t': t, 'kind': k, 'dim': d, 'degs': list(range(1, n + 1))})
            elif k == 'cross':
                out.append({'t': 'size', 'kind': k, 'dim': d, 'degs': ns})
    return out


def size_of(kind, d, n):
    """count without the library (only used to pick arguments)"""
    if kind == 'triangle':
        from math import comb
        return comb(n + d, d)
    if kind == 'cube':
        return (n + 1) ** d
    if kind == 'rectangle':
        return (n + 1) * (n // 2 + 1) ** (d - 1)
    b = max(n, 1)

    def cc(dd, bb):
        if dd == 1:
            return bb + 1
        return cc(dd - 1, bb) + sum(cc(dd - 1, bb // m) for m in range(1, bb + 1))
    return cc(d, b)


def run(case):
    import hermipy.core as core
    import numpy as np
    hermipy()
    k, d = case['kind'], case['dim']
    if case['t'] == 'size':
        return [{'op': 'size', 'kind': k, 'dim': d, 'deg': n,
                 'res': int(core.iterator_size(d, n, index_set=k))} for n in case['degs']]
    if case['t'] == 'degree':
        tr = []
        for n in case['degs']:
            N = size_of(k, d, n)
            tr.append({'op': 'degree', 'kind': k, 'dim': d, 'deg': n, 'n': N,
                       'res': int(core.iterator_get_degree(d, N, index_set=k))})
        return tr
    if case['t'] == 'nodegree':
        tr = []
        n = case['deg']
        sizes = set(size_of(k, d, p) for p in range(0, min(n + 12, 251)))
        for dl in case['delta']:
            N = size_of(k, d, n) + dl
            if N in sizes or N < 2 or d == 1 and N <= 251:
                continue
            tr.append({'op': 'nodegree', 'kind': k, 'dim': d, 'n': N,
                       'raised': raises(lambda: core.iterator_get_degree(d, N, index_set=k))})
        return tr
    n = case['deg']
    lst = listing(k, d, n)
    tr = [{'op': 'list', 'kind': k, 'dim': d, 'deg': n, 'list': lst},
          {'op': 'sizeoflist', 'res': int(core.iterator_size(d, n, index_set=k))}]
    if k in ('triangle', 'cube'):
        tr.append({'op': 'ranks', 'res': [int(core.iterator_index(m, index_set=k)) for m in lst]})
        a = np.array(lst)
        tr.append({'op': 'ranks', 'res': [int(core.iterator_index(m, index_set=k)) for m in a]})
    return tr
