"""C06: products of expansions contract exactly the shared directions."""
import random

from drivers import tens
from drivers.common import KINDS, hermipy, ints, rng

TRACE = 'T_Tensor'
MC = [('MC_Tensor', 'MC_Tensor')]


def cap_for(kind, D, limit):
    return tens.max_deg(kind, max(D, 1), limit)


def cases(seed, tier, ctx):
    out = []
    r = rng(seed, 'c06')
    n_pairs = 40 if tier == 'quick' else 400
    for kind in KINDS:
        top = 4 if kind == 'cross_nc' else 5
        seen = set()
        # every overlap pattern of up to 3 labels, then random ones
        pats = [(a, b) for a in range(1, 8) for b in range(1, 8)]
        for a, b in pats:
            d1 = [i for i in range(3) if a >> i & 1]
            d2 = [i for i in range(3) if b >> i & 1]
            lab = sorted(r.sample(range(5), 3))
            D = max(len(d1), len(d2), len(set(d1) ^ set(d2)))
            cap = cap_for(kind, D, 40)
            out.append({'t': 'core', 'kind': kind, 'd1': [lab[i] for i in d1], 'd2': [lab[i] for i in d2],
                        'deg': r.choice([1, cap, r.randint(1, cap)]), 'seed': r.randint(0, 10**9)})
        for _ in range(n_pairs if not kind == 'cross_nc' else n_pairs // 4):
            d1 = sorted(r.sample(range(5), r.randint(1, top)))
            d2 = sorted(r.sample(range(5), r.randint(1, top)))
            D = max(len(d1), len(d2), len(set(d1) ^ set(d2)))
            if D > top:
                continue
            cap = cap_for(kind, D, 60)
            out.append({'t': r.choice(['core', 'series']), 'kind': kind, 'd1': d1, 'd2': d2,
                        'deg': r.choice([1, cap, r.randint(1, cap)]), 'seed': r.randint(0, 10**9)})
        for _ in range(n_pairs // 3 if kind != 'cross_nc' else 4):
            k = r.randint(2, 4)
            dd = [sorted(r.sample(range(4), r.randint(1, 2))) for _ in range(k)]
            # every prefix product must stay small and directions appear at most twice
            ok, cur, cnt = True, set(), {}
            D = 1
            for d in dd:
                for x in d:
                    cnt[x] = cnt.get(x, 0) + 1
                cur ^= set(d)
                D = max(D, len(cur), len(d))
            if D > top or max(cnt.values()) > 2:
                continue
            cap = min(4, cap_for(kind, D, 40))
            out.append({'t': 'prog', 'kind': kind, 'ds': dd, 'deg': r.randint(1, cap),
                        'seed': r.randint(0, 10**9), 'how': r.choice(['mul', 'static'])})
        # degree 0; labels and numbers of directions beyond those of the variables
        for _ in range(12 if kind != 'cross_nc' else 4):
            top2 = 7 if kind != 'cross_nc' else 4
            lab = r.sample(range(12), top2)
            d1, d2 = sorted(r.sample(lab, r.randint(1, top2))), sorted(r.sample(lab, r.randint(1, top2)))
            D = max(len(d1), len(d2), len(set(d1) ^ set(d2)))
            if D > top2 or tens.count(kind, D, 1) > 130:
                continue
            cap = cap_for(kind, D, 40)
            out.append({'t': 'core', 'kind': kind, 'd1': d1, 'd2': d2, 'seed': r.randint(0, 10**9),
                        'deg': r.choice([0 if 'cross' not in kind else 1, 1, cap])})
    # multi-digit indices
    for kind, deg in (('triangle', 14), ('cube', 11), ('cross', 25), ('cross_nc', 22), ('rectangle', 15)):
        for d1, d2 in (([0, 1], [1]), ([0, 2], [0, 2]), ([1, 3], [0]) if kind == 'x' else ([1], [0]), ([1], [1])):
            out.append({'t': 'core', 'kind': kind, 'd1': d1, 'd2': d2, 'deg': deg, 'seed': 11})
    for kind, deg in (('triangle', 11), ('cross', 12), ('cross_nc', 11), ('cube', 10)):
        for d1, d2 in (([0, 1, 2], [0]), ([0, 1, 2], [0, 1, 2])) if kind != 'cube' else (([0, 1, 3], [1, 3]),):
            out.append({'t': 'core', 'kind': kind, 'd1': d1, 'd2': d2, 'deg': deg, 'seed': 12})
    return out


def event(kind, n, d1, c1, d2, c2, res, resdirs=None):
    dout = sorted(set(d1) ^ set(d2))
    return {'op': 'inner', 'kind': kind, 'deg': n, 'd1': d1, 'd2': d2,
            'l1': tens.lst(kind, len(d1), n), 'l2': tens.lst(kind, len(d2), n), 'c1': c1, 'c2': c2,
            'dout': dout if resdirs is None else resdirs,
            'lout': tens.lst(kind, len(dout), n) if dout else [[]], 'res': res}


def run(case):
    import numpy as np
    import hermipy.core as core
    hm = hermipy()
    rr = random.Random(case['seed'])
    kind, n = case['kind'], case['deg']
    if case['t'] == 'prog':
        mean = {d: float(rr.randint(-3, 3)) for d in range(5)}
        var = {d: float(rr.randint(1, 4)) for d in range(5)}
        objs = []
        for d in case['ds']:
            c = tens.entries(rr, len(tens.lst(kind, len(d), n)), .2, -3, 3)
            objs.append(hm.Series(np.array(c, dtype=float),
                                  hm.Position(dirs=list(d), mean=[mean[x] for x in d],
                                              cov=np.diag([var[x] for x in d])), index_set=kind))
        tr = []
        cur = objs[0]
        for i, o in enumerate(objs[1:]):
            if case['how'] == 'mul':
                nxt = cur * o
            else:
                nxt = hm.Series.tensorize(objs[:i + 2])
            d1 = [int(x) for x in cur.position.dirs]
            d2 = [int(x) for x in o.position.dirs]
            if d1:
                tr.append(event(kind, n, d1, ints(cur.coeffs), d2, ints(o.coeffs), ints(nxt.coeffs),
                                [int(x) for x in nxt.position.dirs]))
            else:
                l2 = tens.lst(kind, len(d2), n)
                tr.append({'op': 'scale', 'by': ints(cur.coeffs), 'list': l2, 'c': ints(o.coeffs),
                           'res': ints(nxt.coeffs), 'dirs': d2,
                           'resdirs': [int(x) for x in nxt.position.dirs]})
            cur = nxt
        return tr
    d1, d2 = case['d1'], case['d2']
    c1 = tens.entries(rr, len(tens.lst(kind, len(d1), n)), .1)
    c2 = tens.entries(rr, len(tens.lst(kind, len(d2), n)), .1)
    if case['t'] == 'core':
        e1, e2 = tens.scales(rr, 2)
        res = core.inner(tens.lay(rr, np.array(c1, dtype=float) * 2. ** e1), tens.lay(rr, np.array(c2, dtype=float) * 2. ** e2), d1, d2,
                         index_set=kind)
        return [event(kind, n, d1, c1, d2, c2, ints(np.atleast_1d(res)))]
    mean = {d: float(rr.randint(-3, 3)) for d in range(5)}
    var = {d: float(rr.randint(1, 4)) for d in range(5)}
    ty = {d: rr.choice(['hermite', 'hermite', 'fourier']) for d in range(5)}
    s1, s2 = [hm.Series(tens.lay(rr, np.array(c, dtype=float)),
                        hm.Position(dirs=list(d), mean=[mean[x] for x in d], cov=np.diag([var[x] for x in d]), types=[ty[x] for x in d]),
                        index_set=kind) for c, d in ((c1, d1), (c2, d2))]
    res = s1 * s2
    tr = [event(kind, n, d1, c1, d2, c2, ints(res.coeffs), [int(x) for x in res.position.dirs])]
    if not res.position.dirs:
        tr.append({'op': 'scalar', 'c': ints(res.coeffs), 'res': ints([float(res)])})
    return tr
