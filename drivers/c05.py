"""C05: projection of vectors, matrices, series and Varf objects."""
import random

from drivers import tens
from drivers.common import KINDS, hermipy, ints, rng

TRACE = 'T_Tensor'
MC = [('MC_Tensor', 'MC_Tensor')]


def subsets(D):
    for mask in range(1, 1 << D):
        yield [i for i in range(D) if mask >> i & 1]


def cases(seed, tier, ctx):
    out = []
    r = rng(seed, 'c05')
    reps = 1 if tier == 'quick' else 8
    for kind in KINDS:
        for D in range(1, 5 if kind == 'cross_nc' else 6):
            subs = list(subsets(D))
            slow = kind == 'cross_nc' and D == 4
            if slow and tier == 'quick':
                subs = r.sample(subs, 4)
            for rel in subs:
                for _ in range(reps):
                    cap = tens.max_deg(kind, D, 150)
                    out.append({'t': 'vec', 'kind': kind, 'dim': D, 'rel': rel,
                                'deg': r.choice([1, cap, r.randint(1, cap)]), 'seed': r.randint(0, 10**9),
                                'aslist': r.randint(0, 1)})
                    cap = tens.max_deg(kind, D, 60)
                    for sp in ((0, 1) if D < 4 else (r.randint(0, 1),)):
                        out.append({'t': 'mat', 'kind': kind, 'dim': D, 'rel': rel,
                                    'deg': r.choice([1, cap, r.randint(1, cap)]),
                                    'seed': r.randint(0, 10**9), 'sparse': sp,
                                    'zero': r.choice([.1, .5, .95])})
                    lab = sorted(r.sample(range(5), D))
                    obj = r.choice(['series', 'varf', 'spvarf'])
                    cap = tens.max_deg(kind, D, 120 if obj == 'series' else 50)
                    out.append({'t': 'obj', 'obj': obj, 'kind': kind, 'dim': D, 'rel': rel, 'labels': lab,
                                'deg': r.choice([1, cap, r.randint(1, cap)]), 'seed': r.randint(0, 10**9)})
            # projecting a tensorization
            for _ in range(2 * reps if not slow else 1):
                if D == 1:
                    continue
                p = r.choice([q for q in tens.partitions(range(D)) if len(q) > 1])
                cap = tens.max_deg(kind, D, 60)
                out.append({'t': 'tens', 'kind': kind, 'groups': [sorted(g) for g in p],
                            'deg': r.randint(1, cap), 'seed': r.randint(0, 10**9),
                            'mat': r.randint(0, 1), 'sparse': r.randint(0, 1)})
    # degree 0, and more directions than there are variables
    for kind in KINDS:
        for D in range(1, 9):
            if kind == 'cross_nc' and D > 4:
                continue
            for mat in (0, 1):
                if tens.count(kind, D, 1) > (64 if mat else 150):
                    continue
                cap = tens.max_deg(kind, D, 60 if mat else 150)
                for deg in ([0] if 'cross' not in kind else []) + ([1, r.randint(1, cap)] if D > 5 else []):
                    c = {'t': 'mat' if mat else 'vec', 'kind': kind, 'dim': D, 'rel': sorted(r.sample(range(D), r.randint(1, D))),
                         'deg': deg, 'seed': r.randint(0, 10**9)}
                    out.append(dict(c, sparse=r.randint(0, 1), zero=.4) if mat else dict(c, aslist=r.randint(0, 1)))
    for kind, D, deg in (('triangle', 2, 24), ('cube', 2, 15), ('cross', 2, 45), ('cross_nc', 2, 40),
                         ('rectangle', 2, 25), ('triangle', 2, 105), ('cross', 2, 130), ('cube', 2, 20)):
        for rel in ([0], [1], [0, 1]):
            out.append({'t': 'vec', 'kind': kind, 'dim': D, 'rel': rel, 'deg': deg, 'seed': 3, 'aslist': 0})
    for kind, D, deg in (('triangle', 3, 14), ('cube', 3, 11), ('cross', 3, 14), ('cross_nc', 3, 13), ('rectangle', 3, 22),
                         ('cross', 4, 11)):
        for rel in ([0, 1, 2], [1, 2], [0, 2]):
            out.append({'t': 'vec', 'kind': kind, 'dim': D, 'rel': rel, 'deg': deg, 'seed': 4, 'aslist': 0})
    return out


def embed_cert(full, plist, all_dirs, dirs):
    pos = {tuple(m): i + 1 for i, m in enumerate(full)}
    rel = [all_dirs.index(d) for d in dirs]
    res = []
    for p in plist:
        m = [0] * len(all_dirs)
        for x, q in zip(p, rel):
            m[q] = x
        res.append(pos.get(tuple(m), 0))
    return res


def run(case):
    import numpy as np
    import scipy.sparse as ss
    import hermipy.core as core
    hm = hermipy()
    rr = random.Random(case['seed'])
    kind, n = case['kind'], case['deg']
    tr = []
    if case['t'] == 'tens':
        groups = case['groups']
        all_dirs = sorted(sum(groups, []))
        full = tens.lst(kind, len(all_dirs), n)
        parts, inp = [], {}
        for g in groups:
            pl = tens.lst(kind, len(g), n)
            vals = tens.matrix(rr, len(pl), .2) if case['mat'] else tens.entries(rr, len(pl), .1)
            parts.append({'dirs': g, 'list': pl, 'vals': vals, 'at': tens.cert(pl, all_dirs, g, full)})
            inp[frozenset(g)] = np.array(vals, dtype=float)
        res = core.tensorize(inp, sparse=bool(case['mat'] and case['sparse']), index_set=kind)
        if case['mat']:
            vals = tens.dense(res)
            tr.append({'op': 'tmat', 'kind': kind, 'deg': n, 'all': all_dirs, 'parts': parts, 'list': full,
                       'resdirs': all_dirs, 'res': vals, 'issparse': tens.issp(res),
                       'wantsparse': case['sparse']})
        else:
            vals = ints(res)
            tr.append({'op': 'tvec', 'kind': kind, 'deg': n, 'all': all_dirs, 'parts': parts, 'list': full,
                       'resdirs': all_dirs, 'res': vals})
        for g in groups:
            pl = tens.lst(kind, len(g), n)
            p = core.project(res, len(all_dirs), g, index_set=kind)
            tr.append({'op': 'pmat' if case['mat'] else 'pvec', 'kind': kind, 'deg': n, 'all': all_dirs,
                       'dirs': g, 'list': full, 'plist': pl, 'at': embed_cert(full, pl, all_dirs, g),
                       'vals': vals, 'res': tens.dense(p) if case['mat'] else ints(p), 'resdirs': g})
        return tr
    D, rel = case['dim'], case['rel']
    full = tens.lst(kind, D, n)
    pl = tens.lst(kind, len(rel), n)
    labels = case.get('labels', list(range(D)))
    dirs = [labels[i] for i in rel]
    ev = {'op': 'pvec', 'kind': kind, 'deg': n, 'all': labels, 'dirs': dirs, 'list': full, 'plist': pl,
          'at': embed_cert(full, pl, labels, dirs), 'resdirs': dirs}
    if case['t'] == 'vec':
        v = tens.entries(rr, len(full), .05, -9999, 9999)
        sc = tens.scale1(rr)
        inp = [float(x) * sc for x in v] if case['aslist'] else tens.lay(rr, np.array(v, dtype=float) * sc)
        arg = rel if len(rel) > 1 or rr.random() < .5 else rel[0]
        res = core.project(inp, D, arg, index_set=kind) / sc
        ev.update(vals=v, res=ints(res))
        return [ev]
    if case['t'] == 'mat':
        m = tens.matrix(rr, len(full), case['zero'])
        sc = tens.scale1(rr)
        a = np.array(m, dtype=float) * sc
        arg = rel if len(rel) > 1 or rr.random() < .5 else rel[0]
        res = core.project(tens.lay(rr, ss.csr_matrix(a) if case['sparse'] else a), D, arg, index_set=kind) / sc
        ev.update(op='pmat', vals=m, res=tens.dense(res))
        return [ev]
    mean = [rr.randint(-3, 3) for _ in range(D)]
    var = [rr.randint(1, 4) for _ in range(D)]
    types = [rr.choice(['hermite', 'hermite', 'fourier']) for _ in range(D)]
    pos = hm.Position(dim=D, mean=[float(x) for x in mean], cov=np.diag([float(x) for x in var]),
                      dirs=list(labels), types=list(types))
    arg = dirs if len(dirs) > 1 or rr.random() < .5 else dirs[0]
    if case['obj'] == 'series':
        v = tens.entries(rr, len(full), .05, -9999, 9999)
        s = hm.Series(np.array(v, dtype=float), pos, index_set=kind)
        q = s.project(arg)
        ev.update(vals=v, res=ints(q.coeffs), resdirs=[int(x) for x in q.position.dirs])
    else:
        m = tens.matrix(rr, len(full), .3)
        a = np.array(m, dtype=float)
        s = hm.Varf(tens.lay(rr, ss.csr_matrix(a) if case['obj'] == 'spvarf' else a), pos, index_set=kind)
        q = s.project(arg)
        ev.update(op='pmat', vals=m, res=tens.dense(q.matrix), resdirs=[int(x) for x in q.position.dirs])
    tr.append(ev)
    tr.append({'op': 'pmeta', 'all': labels, 'dirs': dirs, 'kind': kind, 'deg': n, 'mean': mean, 'var': var,
               'types': types, 'resdirs': [int(x) for x in q.position.dirs], 'reskind': q.index_set,
               'resdeg': int(q.degree), 'resmean': ints(q.position.mean),
               'resvar': ints([q.position.cov[i][i] for i in range(len(q.position.cov))]),
               'restypes': list(q.position.types)})
    return tr
