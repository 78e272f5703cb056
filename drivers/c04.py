"""C04: tensorization of vectors and matrices."""
import random

from drivers import tens
from drivers.common import KINDS, as_int, hermipy, ints, rng

TRACE = 'T_Tensor'
MC = [('MC_Tensor', 'MC_Tensor')]


def cases(seed, tier, ctx):
    out = []
    r = rng(seed, 'c04')
    mult = 1 if tier == 'quick' else 6
    for kind in KINDS:
        # recovering a degree from a count takes a minute for cross_nc in dimension 5
        for D in range(1, 5 if kind == 'cross_nc' else 6):
            labels = list(range(D))
            parts_all = list(tens.partitions(labels))
            r.shuffle(parts_all)
            if kind == 'cross_nc' and D == 4 and tier == 'quick':
                parts_all = parts_all[:5]
            # vectors: every grouping (up to 15 in quick), shuffled order
            for p in parts_all[:15 if tier == 'quick' else 52]:
                cap = tens.max_deg(kind, D, 130)
                for deg in set([r.randint(1, cap), r.choice([1, 2, min(3, cap), cap])]):
                    q = [sorted(g) for g in p]
                    r.shuffle(q)
                    out.append({'t': 'vec', 'kind': kind, 'deg': deg, 'groups': q,
                                'seed': r.randint(0, 10**9), 'style': r.choice(['array', 'list'])})
            # matrices
            for p in parts_all[:(4 if D > 2 else 3) * mult]:
                cap = tens.max_deg(kind, D, 45)
                q = [sorted(g) for g in p]
                r.shuffle(q)
                for sp in (0, 1):
                    out.append({'t': 'mat', 'kind': kind, 'deg': r.randint(1, cap), 'groups': q,
                                'seed': r.randint(0, 10**9), 'sparse': sp,
                                'insp': r.randint(0, 1), 'zero': r.choice([.2, .6, .9])})
            # objects with labels
            for _ in range(2 * mult):
                lab = sorted(r.sample(range(5), D))
                p = r.choice(parts_all)
                q = [[lab[i] for i in sorted(g)] for g in p]
                r.shuffle(q)
                cap = tens.max_deg(kind, D, 40)
                sp = r.randint(0, 1)
                out.append({'t': 'varf', 'kind': kind, 'deg': r.randint(1, cap), 'groups': q,
                            'seed': r.randint(0, 10**9), 'sparse': sp, 'insp': r.randint(0, 1),
                            'zero': .4, 'how': r.choice(['static', 'mul', 'setting'])})
                cap = tens.max_deg(kind, D, 120)
                out.append({'t': 'series', 'kind': kind, 'deg': r.randint(1, cap), 'groups': q,
                            'seed': r.randint(0, 10**9), 'how': r.choice(['static', 'mul'])})
            # one direction
            for dr in range(D):
                cap = tens.max_deg(kind, D, 130)
                out.append({'t': 'dirvec', 'kind': kind, 'deg': r.randint(1, cap), 'dim': D,
                            'dir': dr, 'seed': r.randint(0, 10**9)})
                cap = tens.max_deg(kind, D, 40)
                for sp in (0, 1):
                    out.append({'t': 'dirmat', 'kind': kind, 'deg': r.randint(1, cap), 'dim': D,
                                'dir': dr, 'seed': r.randint(0, 10**9), 'sparse': sp,
                                'insp': r.randint(0, 1)})
            # axes form (list, one part per direction)
            for sp in (0, 1):
                cap = tens.max_deg(kind, D, 40)
                out.append({'t': 'axes', 'kind': kind, 'deg': r.randint(1, cap), 'dim': D,
                            'seed': r.randint(0, 10**9), 'sparse': sp, 'mat': 1, 'insp': r.randint(0, 1)})
            cap = tens.max_deg(kind, D, 130)
            out.append({'t': 'axes', 'kind': kind, 'deg': cap, 'dim': D,
                        'seed': r.randint(0, 10**9), 'sparse': 0, 'mat': 0, 'insp': 0})
    # degree 0, and more directions than there are variables
    for kind in KINDS:
        for D in range(1, 8):
            if kind == 'cross_nc' and D > 4:
                continue
            for mat in (0, 1):
                cap = tens.max_deg(kind, D, 40 if mat else 130)
                if tens.count(kind, D, 1) > (64 if mat else 130):
                    continue
                for deg in ([0] if 'cross' not in kind else []) + ([r.randint(1, cap)] if D > 5 else []):
                    ds = list(range(D))
                    r.shuffle(ds)
                    q = []
                    while ds:
                        k = r.randint(1, len(ds))
                        q.append(sorted(ds[:k]))
                        ds = ds[k:]
                    c = {'t': 'mat' if mat else 'vec', 'kind': kind, 'deg': deg, 'groups': q, 'seed': r.randint(0, 10**9)}
                    out.append(dict(c, sparse=r.randint(0, 1), insp=r.randint(0, 1), zero=.4) if mat else dict(c, style='array'))
                    c = {'t': 'dirmat' if mat else 'dirvec', 'kind': kind, 'deg': deg, 'dim': D, 'dir': r.randrange(D), 'seed': r.randint(0, 10**9)}
                    out.append(dict(c, sparse=r.randint(0, 1), insp=r.randint(0, 1)) if mat else c)
    # a few large ones: two-digit and three-digit indices
    for kind, D, deg in (('triangle', 2, 22), ('cube', 2, 14), ('cross', 2, 40), ('cross_nc', 2, 36),
                         ('rectangle', 2, 21), ('triangle', 3, 9), ('cross', 3, 14), ('cube', 3, 6),
                         ('triangle', 2, 110), ('cross', 2, 120), ('rectangle', 3, 12)):
        gs = [[i] for i in range(D)] if D < 3 else [[0, 2], [1]]
        out.append({'t': 'vec', 'kind': kind, 'deg': deg, 'groups': gs, 'seed': 5, 'style': 'array'})
    for kind, deg, gs in (('cross', 13, [[0, 1, 2]]), ('cross', 11, [[0, 2, 3], [1]]), ('cross_nc', 12, [[0, 1, 2]]),
                          ('triangle', 14, [[0, 1, 2]]), ('cube', 11, [[0, 1, 2]]), ('rectangle', 22, [[1, 2], [0]]),
                          ('cross', 12, [[1, 3, 4], [0], [2]])):
        out.append({'t': 'vec', 'kind': kind, 'deg': deg, 'groups': gs, 'seed': 7, 'style': 'array'})
    for kind, D, deg in (('triangle', 2, 16), ('cube', 2, 11), ('cross', 2, 30), ('cross_nc', 2, 25),
                         ('rectangle', 2, 15)):
        out.append({'t': 'mat', 'kind': kind, 'deg': deg, 'groups': [[1], [0]], 'seed': 6,
                    'sparse': 1, 'insp': 0, 'zero': .5})
    for n in range(1, 6):
        out.append({'t': 'scal', 'n': n, 'seed': r.randint(0, 10**9)})
    return out


def run(case):
    import numpy as np
    import scipy.sparse as ss
    import hermipy.core as core
    hm = hermipy()
    rr = random.Random(case['seed'])
    t = case['t']
    if t == 'scal':
        v = [rr.randint(-6, 6) for _ in range(case['n'])]
        fl = [float(x) for x in v]
        return [{'op': 'tscal', 'vals': v, 'res': as_int(core.tensorize(fl))},
                {'op': 'tscal', 'vals': v, 'res': as_int(core.tensorize({frozenset([i]): x for i, x in enumerate(fl)}))}]
    kind, n = case['kind'], case['deg']

    def arr(m, sp, e=0):
        a = np.array(m, dtype=float) * 2. ** e
        return tens.lay(rr, ss.csr_matrix(a) if sp else a)

    if t in ('dirvec', 'dirmat'):
        D, dr = case['dim'], case['dir']
        full = tens.lst(kind, D, n)
        if t == 'dirvec':
            v = tens.entries(rr, n + 1, .1)
            sc = tens.scale1(rr)
            res = core.tensorize(arr(v, 0) * sc, D, dr, index_set=kind) / sc
            return [{'op': 'tdirvec', 'kind': kind, 'dim': D, 'deg': n, 'dir': dr + 1, 'list': full,
                     'vals': v, 'res': ints(res)}]
        m = tens.matrix(rr, n + 1, .2)
        sc = tens.scale1(rr)
        res = core.tensorize(arr(m, case['insp']) * sc, D, dr, sparse=bool(case['sparse']), index_set=kind) / sc
        return [{'op': 'tdirmat', 'kind': kind, 'dim': D, 'deg': n, 'dir': dr + 1, 'list': full,
                 'vals': m, 'res': tens.dense(res), 'issparse': tens.issp(res), 'wantsparse': case['sparse']}]
    if t == 'axes':
        D = case['dim']
        groups = [[i] for i in range(D)]
    else:
        groups = case['groups']
    all_dirs = sorted(sum(groups, []))
    D = len(all_dirs)
    full = tens.lst(kind, D, n)
    mats = t in ('mat', 'varf') or t == 'axes' and case['mat']
    parts = []
    exps = tens.scales(rr, len(groups))
    for g in groups:
        pl = tens.lst(kind, len(g), n)
        vals = tens.matrix(rr, len(pl), case.get('zero', .2)) if mats else tens.entries(rr, len(pl), .15)
        parts.append({'dirs': g, 'list': pl, 'vals': vals, 'at': tens.cert(pl, all_dirs, g, full)})
    ev = {'op': 'tmat' if mats else 'tvec', 'kind': kind, 'deg': n, 'all': all_dirs, 'parts': parts,
          'list': full, 'resdirs': all_dirs}
    if t == 'vec':
        inp = {frozenset(p['dirs']): arr(p['vals'], 0, e) for p, e in zip(parts, exps)}
        res = core.tensorize(inp, index_set=kind)
        ev['res'] = ints(res)
    elif t == 'mat':
        inp = {frozenset(p['dirs']): arr(p['vals'], case['insp'], e) for p, e in zip(parts, exps)}
        res = core.tensorize(inp, sparse=bool(case['sparse']), index_set=kind)
        ev.update(res=tens.dense(res), issparse=tens.issp(res), wantsparse=case['sparse'])
    elif t == 'axes':
        inp = [arr(p['vals'], case['insp'], e) for p, e in zip(parts, exps)]
        if mats:
            res = core.tensorize(inp, sparse=bool(case['sparse']), index_set=kind)
            ev.update(res=tens.dense(res), issparse=tens.issp(res), wantsparse=case['sparse'])
        else:
            ev['res'] = ints(core.tensorize(inp, index_set=kind))
    elif t == 'varf':
        objs = [hm.Varf(arr(p['vals'], case['insp'], e), hm.Position(dirs=p['dirs'], dim=len(p['dirs'])),
                        index_set=kind) for p, e in zip(parts, exps)]
        want = case['sparse']
        if case['how'] == 'static' or len(objs) == 1:
            res = hm.Varf.tensorize(objs, sparse=bool(want))
            if len(objs) == 1:
                want = case['insp']
        else:
            old = hm.settings['sparse']
            hm.settings['sparse'] = bool(want)
            try:
                if case['how'] == 'mul':
                    res = objs[0]
                    for o in objs[1:]:
                        res = res * o
                else:
                    res = hm.Varf.tensorize(objs)
            finally:
                hm.settings['sparse'] = old
        ev.update(res=tens.dense(res.matrix), issparse=tens.issp(res.matrix), wantsparse=want,
                  resdirs=[int(x) for x in res.position.dirs])
    else:
        objs = [hm.Series(arr(p['vals'], 0, e), hm.Position(dirs=p['dirs'], dim=len(p['dirs'])),
                          index_set=kind) for p, e in zip(parts, exps)]
        if case['how'] == 'static':
            res = hm.Series.tensorize(objs)
        else:
            res = objs[0]
            for o in objs[1:]:
                res = res * o
        ev.update(res=ints(res.coeffs), resdirs=[int(x) for x in res.position.dirs])
    return [ev]
