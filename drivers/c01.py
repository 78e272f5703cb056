"""C01: every index set enumerates exactly its set, each element once."""
from drivers.common import KINDS, hermipy, listing, rng

TRACE = 'T_Index'
MC = [('MC_Iter', 'MC_Iter')]

CAP = {  # largest degree explored per (kind, dim), quick / thorough
    'triangle': {1: (250, 250), 2: (60, 250), 3: (24, 60), 4: (13, 24), 5: (9, 15)},
    'cube': {1: (250, 250), 2: (60, 200), 3: (15, 36), 4: (7, 13), 5: (4, 8)},
    'cross': {1: (250, 250), 2: (80, 250), 3: (36, 120), 4: (20, 50), 5: (12, 28)},
    'cross_nc': {1: (250, 250), 2: (80, 250), 3: (36, 100), 4: (16, 36), 5: (8, 16)},
    'rectangle': {1: (250, 250), 2: (80, 250), 3: (24, 60), 4: (12, 24), 5: (8, 14)},
}
BIG = {'triangle': {2: [127, 250], 3: [50]}, 'cube': {2: [128], 3: [25]},
       'cross': {2: [250], 3: [97], 4: [48]}, 'cross_nc': {2: [250], 3: [80], 4: [30]},
       'rectangle': {2: [129], 3: [41]}}


def cases(seed, tier, ctx):
    out = []
    t = 1 if tier == 'thorough' else 0
    for k in KINDS:
        for d in range(1, 6):
            cap = CAP[k][d][t]
            degs = list(range(0, cap + 1))
            if tier == 'quick':
                r = rng(seed, 'c01%s%d' % (k, d))
                small = [n for n in degs if n <= 12]
                rest = [n for n in degs if n > 12]
                r.shuffle(rest)
                degs = small + sorted(rest[:12])
                degs += [n for n in BIG[k].get(d, []) if n not in degs]
            for n in degs:
                out.append({'kind': k, 'dim': d, 'deg': n})
        # more directions
        for d in range(6, 11 if t == 0 else 13):
            out += [{'kind': k, 'dim': d, 'deg': n} for n in high(k, d, 1500 if t == 0 else 8000)]
    return out


def high(kind, d, limit):
    """degrees in many dimensions, while the set has at most limit elements"""
    from drivers.c03 import size_of
    out, n = [], 0
    while n < 40 and size_of(kind, d, n) <= limit and not (kind == 'cross_nc' and (n > 3 or d > 8)):
        out.append(n)
        n += 1
    return out


def run(case):
    hermipy()
    k, d, n = case['kind'], case['dim'], case['deg']
    return [{'op': 'list', 'kind': k, 'dim': d, 'deg': n, 'list': listing(k, d, n)}]
