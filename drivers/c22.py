"""C22: valid and invalid requests, mixed, in one process."""
import contextlib
import io
import json
import random

from drivers import badreq
from drivers.common import BAD, KINDS, as_int, hermipy, rng

TRACE = 'T_Session'
MC = [('MC_Requests', 'MC_Requests')]
MC_THOROUGH = [('MC_Requests', 'MC_RequestsT')]
POOL_KW = {'case_timeout': 240}
ASSUMPTIONS = ['sizes below a few hundred entries', 'requests in dimension 0 may be answered or refused, but must not crash',
               'subscripts inside C++ expressions handed to core.discretize, and the internal conversion functions of the extension, are trusted inputs']


def cases(seed, tier, ctx):
    r = rng(seed, 'c22')
    out = []
    fams = list(range(len(badreq.FAMILIES)))
    k = 3 if tier == 'quick' else 40
    for i in range(40 * k):
        out.append({'t': 'req', 'seed': r.randint(0, 10 ** 9), 'len': 40 if tier == 'quick' else 80})
    for f in fams:
        for i in range(2 * k if badreq.FAMILIES[f].__name__ != 'expressions' else 4 * k):
            out.append({'t': 'bad', 'fam': f, 'seed': r.randint(0, 10 ** 9), 'len': 24 if tier == 'quick' else 40})
    for i in range(8 * k):
        out.append({'t': 'mix', 'seed': r.randint(0, 10 ** 9), 'len': 40})
    return out


def size(kind, d, n):
    from drivers.c03 import size_of
    return size_of(kind, d, max(n, 0)) if d > 0 else 1


def near(rr, n, p=.3):
    return max(0, n + rr.choice([-2, -1, 1, 1, 2, 3])) if rr.random() < p else n


def request(rr):
    """a request, valid or with one or two arguments made wrong"""
    fn = rr.choice(['size', 'list', 'degree', 'degree', 'rank', 'integrate', 'forward', 'backward', 'varf', 'varfd', 'varfd', 'discretize',
                    'tensor', 'tensor', 'tensor', 'extend', 'project', 'project', 'inner', 'inner', 'series', 'matrix', 'position', 'position', 'pproject', 'ptens'])
    kind = rr.choice(KINDS) if rr.random() < .94 else rr.choice(badreq.BADSETS)
    k0 = kind if kind in KINDS else 'triangle'
    dim = rr.choice([1, 1, 2, 2, 2, 3])
    deg = rr.choice([0, 1, 1, 2, 2, 3, 4, 5])
    while size(k0, dim, deg) > 40:
        deg -= 1
    if k0.startswith('cross') and dim == 3:
        deg = min(deg, 3)
    r = {'fn': fn, 'kind': k0 if fn in ('integrate', 'discretize', 'position', 'pproject', 'ptens') else kind}
    if fn in ('size', 'list'):
        r.update(dim=rr.choice([dim, dim, dim, dim + 1, 0, -1]), deg=rr.choice([deg, deg, deg, -1, -7]))
    elif fn == 'degree':
        r.update(dim=rr.choice([dim] * 6 + [0, -1]), n=near(rr, size(k0, dim, deg), .6))
        if rr.random() < .05:
            r['n'] = -r['n']
    elif fn == 'rank':
        r['m'] = [rr.randint(0, 3) for _ in range(rr.choice([dim] * 6 + [0]))]
        if r['m'] and rr.random() < .15:
            r['m'][-1] = -1
    elif fn in ('integrate', 'forward', 'backward', 'varf'):
        pts = rr.choice([1, 2, 3, 4]) if fn not in ('varf', 'forward') else deg + rr.choice([2, 3])
        while pts ** dim > 130:
            pts -= 1
        if fn in ('varf', 'forward'):
            deg = min(deg, pts - 2)
        r.update(dim=dim, pts=pts, wdim=dim, wpts=pts, flags=dim, deg=deg, n=size(k0, dim, deg) if fn == 'backward' else pts ** dim)
        w = rr.choice(['', '', 'n', 'n', 'wdim', 'wpts', 'flags', 'deg'])
        if w == 'deg':
            r['deg'] = -1 if rr.random() < .5 else near(rr, deg, 1) if fn == 'backward' else deg
        elif w:
            r[w] = near(rr, r[w], 1)
        r['sparse'] = int(rr.random() < .5)
    elif fn == 'discretize':
        r.update(dim=dim, pts=rr.choice([1, 2, 3]), tr=near(rr, dim, .2), rows=near(rr, dim, .2), cols=near(rr, dim, .2))
    elif fn == 'varfd':
        n = size(k0, dim, deg)
        r.update(dim=dim, deg=deg, dir=rr.choice(list(range(dim)) * 3 + [dim, dim + 2, -1]), n=near(rr, n, .2), sparse=int(rr.random() < .5))
        r['cols'] = near(rr, r['n'], .2)
        if rr.random() < .1:
            r[rr.choice(['dim', 'deg'])] = rr.choice([0, -1])
    elif fn in ('tensor', 'inner'):
        mat = rr.random() < .5
        if fn == 'tensor':
            D = rr.choice([1, 2, 2, 3])
            ds = list(range(D))
            rr.shuffle(ds)
            groups = []
            while ds:
                c = rr.randint(1, min(2, len(ds)))
                groups.append(sorted(ds[:c]))
                ds = ds[c:]
            deg = min(deg, {1: 5, 2: 4, 3: 2}[D])
            if k0 == 'cross_nc' and D == 3:
                deg = min(deg, 1)
            w = rr.choice(['', '', 'n', 'n', 'dup', 'far', 'empty', 'cols'])
            g = rr.choice(groups)
            if w == 'dup':
                g[0] = rr.randrange(D)
            elif w == 'far':
                g[-1] = rr.choice([D, D + 1, 100])
            elif w == 'empty' and rr.random() < .3:
                del g[:]
            groups = [sorted(set(g)) for g in groups]
            seen, parts = set(), []
            for g in groups:
                if tuple(g) in seen:
                    continue
                seen.add(tuple(g))
                n = size(k0, len(g), deg)
                if w == 'n' and rr.random() < .6:
                    n = max(1, near(rr, n, 1)) if rr.random() < .6 else size(k0, len(g), deg + 1)
                parts.append({'dirs': g, 'n': n, 'cols': -1 if not mat else (near(rr, n, 1) if w == 'cols' and rr.random() < .5 else n)})
            r.update(parts=parts, sparse=int(mat and rr.random() < .5))
        else:
            def ds():
                return sorted(rr.sample(range(4), rr.choice([1, 1, 2, 2, 3])))
            deg = min(deg, 3)
            d1, d2 = ds(), ds()
            r.update(d1=d1, d2=d2, n1=size(k0, len(d1), deg), n2=size(k0, len(d2), deg))
            w = rr.choice(['', '', 'n1', 'n2', 'deg', 'order', 'dup', 'empty'])
            if w in ('n1', 'n2'):
                r[w] = max(1, near(rr, r[w], 1))
            elif w == 'deg':
                r['n1'] = size(k0, len(d1), deg + rr.choice([1, 2]))
            elif w == 'order' and len(d1) > 1:
                d1.reverse()
            elif w == 'dup' and len(d2) > 1:
                d2[0] = d2[1]
            elif w == 'empty' and rr.random() < .3:
                r['d1'], r['n1'] = [], rr.choice([1, r['n1']])
    elif fn == 'extend':
        mat = rr.random() < .5
        n = deg + 1 if rr.random() < .9 else 1
        r.update(dim=rr.choice([dim] * 8 + [0, -1]), dir=rr.choice(list(range(dim)) * 3 + [dim, 7, -1]), n=n, cols=-1)
        if k0.startswith('cross') and n == 1:
            r['n'] = n = 1
        if mat:
            r['cols'] = near(rr, n, .15)
        r['sparse'] = int(mat and rr.random() < .5)
    elif fn == 'project':
        mat = rr.random() < .6
        n = near(rr, size(k0, dim, deg), .25)
        dirs = sorted(rr.sample(range(dim), rr.randint(1, dim)))
        w = rr.choice(['', '', '', 'far', 'dup', 'order', 'neg', 'empty', 'dim'])
        if w == 'far':
            dirs[-1] = rr.choice([dim, dim + 1, 50])
        elif w == 'dup':
            dirs.append(dirs[-1])
        elif w == 'order':
            rr.shuffle(dirs)
        elif w == 'neg':
            dirs[0] = -1
        elif w == 'empty':
            dirs = []
        elif w == 'dim' and rr.random() < .4:
            dim = rr.choice([0, -1])
        r.update(dim=dim, n=max(n, 1), dirs=dirs, cols=-1, sparse=int(mat and rr.random() < .5))
        if mat:
            r['cols'] = near(rr, r['n'], .15)
    elif fn == 'position':
        D = rr.choice([1, 1, 2, 2, 3, 4])
        def some(x):
            return x if rr.random() < .5 else -1
        r.update(dim=some(near(rr, D, .1)), mean=some(near(rr, D, .1)), rows=some(near(rr, D, .1)), dirs=[-1], types=[-1])
        r['cols'] = -1 if r['rows'] < 0 else near(rr, r['rows'], .1)
        if rr.random() < .5:
            r['dirs'] = sorted(rr.sample(range(5), min(5, near(rr, D, .1))))
            if len(r['dirs']) > 1 and rr.random() < .2:
                r['dirs'][0] = r['dirs'][1]
        if rr.random() < .5:
            r['types'] = [rr.choice([0, 0, 1, 1, 0, 0, 1, 1, 2]) for _ in range(near(rr, D, .1))]
    elif fn == 'pproject':
        r['all'] = sorted(rr.sample(range(5), rr.randint(1, 4)))
        r['dirs'] = sorted(rr.sample(r['all'], rr.randint(1, len(r['all']))))
        w = rr.choice(['', '', '', 'far', 'dup', 'order', 'neg'])
        if w == 'far':
            r['dirs'] = sorted(set(r['dirs']) | {rr.choice([d for d in range(6) if d not in r['all']])})
        elif w == 'dup':
            r['dirs'].append(r['dirs'][-1])
        elif w == 'order' and len(r['dirs']) > 1:
            r['dirs'].reverse()
        elif w == 'neg':
            r['dirs'][0] = -1
    elif fn == 'ptens':
        at = {d: {'d': d, 'mu': rr.randint(-1, 1), 'v': rr.randint(1, 2), 't': rr.randint(0, 1)} for d in range(5)}
        ps = []
        for _ in range(rr.choice([1, 2, 2, 2, 3, 3])):
            ps.append([dict(at[d]) for d in sorted(rr.sample(range(5), rr.choice([1, 1, 2, 3])))])
        if rr.random() < .5:
            x = rr.choice(rr.choice(ps))
            k = rr.choice(['mu', 'v', 't'])
            x[k] = 1 - x[k] if k == 't' else x[k] + 1
        r['parts'] = ps
    elif fn in ('series', 'matrix'):
        n = near(rr, size(k0, dim, deg), .4)
        r.update(dim=dim, n=n)
        if fn == 'matrix':
            r.update(cols=near(rr, n, .3), sparse=int(rr.random() < .5))
    return r


def pos_shape(p):
    import numpy as np
    n = {int(p.dim), len(p.dirs), len(p.mean), len(p.types)} | set(np.shape(p.cov)) | set(np.shape(p.factor))
    return np.zeros(n.pop() if len(n) == 1 else 99)


def ask(hm, r):
    """make the request; returns (shape, sum)"""
    import numpy as np
    import scipy.sparse as ss
    import hermipy.core as core
    fn, ks = r['fn'], r['kind']

    def arr(n, cols, sparse=0):
        if cols == -1:
            return np.ones(n)
        m = np.zeros((n, cols))
        for i in range(min(n, cols)):
            m[i, i] = 1.
        return ss.csr_matrix(m) if sparse else m
    if fn in ('integrate', 'forward', 'backward', 'varf'):
        x, w = np.polynomial.hermite_e.hermegauss(r['pts'])
        w = w / w.sum()
        nodes = np.array([x] * r['dim'])
        if r['wpts'] == r['pts']:
            w1 = w
        else:
            w1 = np.ones(r['wpts'])
        weights = np.array([w1] * r['wdim']).reshape(r['wdim'], r['wpts'])
        fl = {} if r['flags'] == r['dim'] and r['n'] % 2 else {'do_fourier': [0] * r['flags']}
        g = np.ones(r['n'])
    if fn == 'size':
        v = core.iterator_size(r['dim'], r['deg'], index_set=ks)
    elif fn == 'list':
        v = core.iterator_list_indices(r['dim'], r['deg'], index_set=ks)
    elif fn == 'degree':
        v = core.iterator_get_degree(r['dim'], r['n'], index_set=ks)
    elif fn == 'rank':
        v = core.iterator_index(r['m'], index_set=ks)
    elif fn == 'integrate':
        v = core.integrate(g, nodes, weights, **fl)
    elif fn in ('forward', 'backward'):
        v = core.transform(r['deg'], g, nodes, weights, fn == 'forward', index_set=ks, **fl)
    elif fn == 'varf':
        v = core.varf(r['deg'], g, nodes, weights, sparse=bool(r['sparse']), index_set=ks, **fl)
    elif fn == 'varfd':
        v = core.varfd(r['dim'], r['deg'], r['dir'], arr(r['n'], r['cols'], r['sparse']), index_set=ks)
    elif fn == 'discretize':
        v = core.discretize('v[0]*0 + 1', np.ones((r['dim'], r['pts'])), np.zeros(r['tr']), np.eye(max(r['rows'], r['cols']))[:r['rows'], :r['cols']])
    elif fn == 'tensor':
        ps = r['parts']
        inp = {frozenset(p['dirs']): arr(p['n'], p['cols'], r['sparse'] and i % 2) for i, p in enumerate(ps)}
        v = core.tensorize(inp, sparse=bool(r['sparse']), index_set=ks)
    elif fn == 'extend':
        v = core.tensorize(arr(r['n'], r['cols']), dim=r['dim'], direction=r['dir'], sparse=bool(r['sparse']), index_set=ks)
    elif fn == 'project':
        v = core.project(arr(r['n'], r['cols'], r['sparse']), r['dim'], r['dirs'], index_set=ks)
    elif fn == 'inner':
        v = core.inner(np.ones(r['n1']), np.ones(r['n2']), r['d1'], r['d2'], index_set=ks)
    elif fn == 'position':
        kw = {}
        if r['dim'] >= 0:
            kw['dim'] = r['dim']
        if r['mean'] >= 0:
            kw['mean'] = [1.] * r['mean']
        if r['rows'] >= 0:
            kw['cov'] = arr(r['rows'], r['cols'])
        if r['dirs'] != [-1]:
            kw['dirs'] = list(r['dirs'])
        if r['types'] != [-1]:
            kw['types'] = [['hermite', 'fourier', 'chebyshev'][t] for t in r['types']]
        v = pos_shape(hm.Position(**kw))
    elif fn == 'pproject':
        ds = r['dirs'][0] if len(r['dirs']) == 1 and sum(r['all']) % 2 else list(r['dirs'])
        v = pos_shape(hm.Position(dirs=list(r['all'])).project(ds))
    elif fn == 'ptens':
        ps = [hm.Position(dirs=[x['d'] for x in p], mean=[float(x['mu']) for x in p], cov=np.diag([float(x['v']) for x in p]),
                          types=[['hermite', 'fourier'][x['t']] for x in p]) for p in r['parts']]
        v = pos_shape(hm.Position.tensorize(ps))
    elif fn == 'series':
        v = hm.Series(np.ones(r['n']), hm.Position(dim=r['dim']), index_set=ks).degree
    elif fn == 'matrix':
        v = hm.Varf(arr(r['n'], r['cols'], r['sparse']), hm.Position(dim=r['dim']), index_set=ks).degree
    if ss.issparse(v):
        v = v.toarray()
    v = np.asarray(v)
    return [int(x) for x in v.shape], as_int(v.sum())


def run(case):
    hm = hermipy()
    rr = random.Random(case['seed'])

    def st():
        return json.dumps({k: str(v) for k, v in sorted(hm.settings.items())})
    tr = [{'op': 'begin', 'st': st()}]

    def req():
        r = request(rr)
        ev = {'op': 'req', 'r': r}
        try:
            shape, s = ask(hm, r)
            ev.update(raised=0, shape=shape, sum=s)
        except Exception as e:
            ev.update(raised=1, what=type(e).__name__, shape=[], sum=0)
        tr.append(dict(ev, st=st()))

    def bad(fam, i=None):
        lst = badreq.FAMILIES[fam](rr)
        if not lst:
            return
        i = rr.randrange(len(lst)) if i is None else i % len(lst)
        try:
            lst[i]()
            raised = 0
        except Exception:
            raised = 1
        tr.append({'op': 'bad', 'what': '%s/%d' % (badreq.FAMILIES[fam].__name__, i), 'raised': raised, 'st': st()})

    def good():
        D = rr.choice([1, 2])
        ds = sorted(rr.sample(range(5), D))
        ks = [rr.randint(0, 4) for _ in ds]
        e = 1
        for d, k in zip(ds, ks):
            e = e * hm.Function.xyz[d] ** k
        ev = {'op': 'good', 'k': ks}
        try:
            q = hm.Quad.gauss_hermite(4, dirs=list(ds))
            v = q.integrate(e if rr.random() < .5 else str(e), tensorize=rr.random() < .5)
            ev.update(raised=0, res=as_int(v))
        except Exception as x:
            ev.update(raised=1, res=BAD, what=repr(x)[:200])
        tr.append(dict(ev, st=st()))

    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        if case['t'] == 'req':
            for _ in range(case['len']):
                req()
        elif case['t'] == 'bad':
            n = len(badreq.FAMILIES[case['fam']](rr))
            order = list(range(n))
            rr.shuffle(order)
            for j in range(case['len']):
                if not order:
                    break
                bad(case['fam'], order.pop())
                if j % 4 == 3:
                    good() if rr.random() < .3 else req()
        else:
            for _ in range(case['len']):
                w = rr.random()
                if w < .4:
                    bad(rr.randrange(len(badreq.FAMILIES)))
                elif w < .9:
                    req()
                else:
                    good()
        good()
    return tr
