"""C14: discretized differential operators, with and without factor."""
import math
import random

from drivers import gal, tens
from drivers.common import KINDS, hermipy, ints, rng

TRACE = 'T_Galerkin'
MC = [('MC_Galerkin', 'MC_Galerkin'), ('MC_Weyl', 'MC_Weyl')]
ASSUMPTIONS = ['integer coefficients, means, deviations; factors exp(-q), q an integer quadratic polynomial; '
               'the quadrature is exact for the products involved']


def cases(seed, tier, ctx):
    r = rng(seed, 'c14')
    out = []
    reps = 2 if tier == 'quick' else 10
    S = lambda: r.randint(0, 10**9)
    for kind in KINDS:
        for D in (1, 2, 3):
            for _ in range(2 * reps):
                out.append({'t': 'op', 'kind': kind, 'dim': D, 'labels': sorted(r.sample(range(5), D)),
                            'sparse': r.randint(0, 1), 'order': 4 if D == 1 else 3, 'tens': r.choice([1, 1, 0]),
                            'fac': 0, 'seed': S()})
            if D < 3:
                for _ in range(2 * reps):
                    out.append({'t': 'op', 'kind': kind, 'dim': D, 'labels': sorted(r.sample(range(5), D)),
                                'sparse': r.randint(0, 1), 'order': 2, 'tens': r.choice([1, 1, 0]),
                                'fac': r.choice([1, 1, 2]), 'seed': S()})
            out.append({'t': 'zero', 'kind': kind, 'dim': D, 'labels': sorted(r.sample(range(5), D)),
                        'sparse': r.randint(0, 1), 'seed': S()})
            out.append({'t': 'comp', 'kind': kind, 'dim': min(D, 2), 'labels': sorted(r.sample(range(5), min(D, 2))),
                        'sparse': r.randint(0, 1), 'order': 2, 'fac': r.randint(0, 1), 'tens': 1, 'seed': S()})
    for kind in KINDS:
        out.append({'t': 'op', 'kind': kind, 'dim': 1, 'labels': [r.randint(0, 4)], 'sparse': r.randint(0, 1), 'order': 5,
                    'tens': r.randint(0, 1), 'fac': 0, 'seed': S()})
        out.append({'t': 'op', 'kind': kind, 'dim': 2, 'labels': sorted(r.sample(range(5), 2)), 'sparse': r.randint(0, 1),
                    'order': 5, 'tens': r.randint(0, 1), 'fac': 0, 'seed': S()})
        if kind != 'cross_nc':
            out.append({'t': 'op', 'kind': kind, 'dim': 4, 'labels': sorted(r.sample(range(5), 4)), 'sparse': 1,
                        'order': 2, 'tens': 1, 'fac': 0, 'seed': S()})
    for _ in range(6 * reps):
        D = r.choice([1, 2])
        out.append({'t': 'op', 'kind': 'cube' if D == 2 else r.choice(KINDS), 'dim': D, 'mix': 1, 'fac': 0,
                    'labels': sorted(r.sample(range(5), D)), 'sparse': r.randint(0, 1), 'order': 2, 'tens': 1,
                    'seed': S()})
    return out


def mk_case(case, rr):
    kind, D = case['kind'], case['dim']
    types = None
    if case.get('mix'):
        types = [rr.choice('hf') for _ in range(D)]
        types[rr.randrange(D)] = 'f'
    for _ in range(3000):
        sp = gal.rand_space(rr, D, types, mu=1, sgs=(1, 1, 2))
        n = gal.degree_for(kind, D, rr, {1: 8, 2: 20, 3: 20, 4: 16}[D], even=bool(types))
        terms, seen = [], set()
        for _ in range(rr.randint(1, 4)):
            t = gal.rand_term(rr, sp, 3, 3, rr.randint(0, case['order']))
            terms.append(t)
        q = None
        if case['fac']:
            q = []
            for i in range(D):
                a = rr.choice([0, 1, 1, 2])
                b = rr.choice([0, 0, 1, -1])
                if a:
                    q.append({'c': a, 'f': [['x', 2 if j == i else 0] for j in range(D)], 'd': [0] * D})
                if b:
                    q.append({'c': b, 'f': [['x', 1 if j == i else 0] for j in range(D)], 'd': [0] * D})
            if case['fac'] == 2 and D == 2:
                q.append({'c': 1, 'f': [['x', 1], ['x', 1]], 'd': [0] * D})
            if not q:
                continue
        eff = terms
        if q:
            eff = [dict(t, c=t['c'] * 30, f=[[x, a + 2] for x, a in t['f']]) for t in terms]
        if gal.mono_bound(sp, eff, n) < 1e9:
            return sp, n, terms, q
    raise RuntimeError('no case')


def run(case):
    import numpy as np
    import sympy
    from hermipy.compquad import CompQuad
    hm = hermipy()
    rr = random.Random(case['seed'])
    kind, D, lab, sparse = case['kind'], case['dim'], case['labels'], case['sparse']
    kw = {'sparse': bool(sparse), 'index_set': kind}
    if case['t'] == 'zero':
        n = gal.degree_for(kind, D, rr, 20)
        q = gal.quad(gal.rand_space(rr, D), lab, n + 1)
        m = q.discretize_op(hm.Operator(sympy.Integer(0), dirs=list(lab)), n, **kw).matrix
        lst = tens.lst(kind, D, n)
        return [{'op': 'mat', 'kind': kind, 'deg': n, 'sp': [{'t': 'h', 'mu': 0, 'sg': 1}] * D, 'terms': [],
                 'K': [0] * D, 'list': lst, 'res': gal.mat_ints(m, [{'t': 'h', 'mu': 0, 'sg': 1}] * D, lst, [0] * D),
                 'issparse': tens.issp(m), 'wantsparse': sparse}]
    sp, n, terms, q = mk_case(case, rr)
    lst = tens.lst(kind, D, n)
    K = [max(t['d'][i] for t in terms) for i in range(D)]
    rho, extra = 1, 0
    if q:
        rho = sympy.exp(-gal.sym_fun(q, lab, sp))
        extra = max(sum(t['d']) for t in terms)
    npt = gal.need_points(sp, terms, max(n, 1), extra)
    quad = gal.quad(sp, lab, npt, factor=rho)
    sc = rr.choice(gal.SCALES)
    expr = sympy.expand(gal.sym_op(terms, lab, sp) * sympy.Integer(2) ** sc)
    if expr == 0:
        expr = hm.Operator(expr, dirs=list(lab))
    tr = []
    old = hm.settings['tensorize']
    try:
        hm.settings['tensorize'] = bool(case['tens'])
        if case['t'] == 'comp':
            w = rr.choice([[1, 1, -1], [2, -1], [3, -2]])
            quad = CompQuad([gal.quad(sp, lab, npt + i, factor=rho) for i in range(len(w))], w)
        if rr.random() < .5 and not isinstance(expr, hm.Operator):
            arg = hm.Operator(expr)
        else:
            arg = expr
        v = quad.discretize_op(arg, n, **kw)
    finally:
        hm.settings['tensorize'] = old
    ev = {'kind': kind, 'deg': n, 'sp': sp, 'terms': gal.spec_terms(terms), 'K': K, 'list': lst,
          'res': gal.mat_ints(v.matrix, sp, lst, K, sc), 'issparse': tens.issp(v.matrix), 'wantsparse': sparse}
    if q:
        tr.append(dict(ev, op='matconj', q=gal.spec_terms(q)))
    else:
        tr.append(dict(ev, op='mat'))
    # the matrix acts on the expansion of u / rho
    tr.append({'op': 'same', 'a': [v.index_set, [int(x) for x in v.position.dirs]], 'b': [kind, lab]})
    return tr
