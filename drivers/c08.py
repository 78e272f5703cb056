"""C08: sampling on the mapped grid, integration, composite rules."""
import math
import random

from drivers import gal
from drivers.c07 import nd_positions
from drivers.common import as_int, hermipy, ints, rng

TRACE = 'T_Galerkin'
MC = [('MC_Galerkin', 'MC_Galerkin')]
ASSUMPTIONS = ['flat integrals: Fourier directions with period 2 pi', 'integer nodes, factors and coefficients']


def cases(seed, tier, ctx):
    r = rng(seed, 'c08')
    out = []
    reps = 1 if tier == 'quick' else 6
    S = lambda: r.randint(0, 10**9)
    for D in range(1, 6):
        for _ in range(5 * reps):
            out.append({'t': 'core', 'dim': D, 'seed': S()})
        for _ in range(6 * reps):
            out.append({'t': 'quad', 'dim': D, 'labels': sorted(r.sample(range(5), D)), 'nd': 0, 'seed': S()})
        for unit in (-40, -20, 20, 40):
            out.append({'t': 'quad', 'dim': D, 'labels': sorted(r.sample(range(5), D)), 'nd': 0, 'unit': unit, 'seed': S()})
        # nodes many deviations away from the mean
        for _ in range((3 if D < 4 else 1) * reps):
            out.append({'t': 'quad', 'dim': D, 'labels': sorted(r.sample(range(5), D)), 'nd': 0, 'far': 1, 'seed': S()})
        if D in (2, 3):
            for _ in range(8 * reps):
                out.append({'t': 'quad', 'dim': D, 'labels': sorted(r.sample(range(5), D)), 'nd': 1, 'seed': S()})
        for _ in range((8 if D < 4 else 3) * reps):
            types = [r.choice('hhf') for _ in range(D)]
            out.append({'t': 'expect', 'dim': D, 'types': types, 'labels': sorted(r.sample(range(5), D)),
                        'flat': r.randint(0, 1), 'tens': r.choice([0, 1, 2]), 'seed': S()})
        for _ in range(3 * reps):
            out.append({'t': 'density', 'dim': D, 'labels': sorted(r.sample(range(5), D)), 'nd': int(D in (2, 3) and r.random() < .5), 'seed': S()})
    for D in (1, 2, 3):
        for _ in range(4 * reps):
            out.append({'t': 'comp', 'dim': D, 'labels': sorted(r.sample(range(5), D)), 'seed': S()})
    for _ in range(3):
        out.append({'t': 'trapz', 'seed': S()})
    for D in (1, 1, 2, 3):
        for _ in range(2 * reps):
            out.append({'t': 'series', 'dim': D, 'labels': sorted(r.sample(range(5), D)), 'nd': 0, 'seed': S()})
    for cnt in ([64], [200], [2, 70], [30, 31], [9, 2, 11], [2, 3, 2, 5, 4]):
        out.append({'t': 'core', 'dim': len(cnt), 'cnt': cnt, 'seed': S()})
    return out


def expr_terms(rr, D, n=3, amax=3):
    ts = []
    for _ in range(rr.randint(1, n)):
        ts.append({'c': rr.choice([-3, -2, -1, 1, 2, 5]), 'e': [rr.choice([0, 0, 1, 1, 2, amax]) for _ in range(D)],
                   's': [int(rr.random() < .2) for _ in range(D)]})
    return ts


def tame(ts, base, weights=None):
    """lower exponents until the sums stay well below 2^31"""
    D = len(base['mean'])
    X = [abs(base['mean'][i]) + sum(abs(base['F'][i][j]) * max(map(abs, base['nodes'][j])) for j in range(D))
         for i in range(D)]
    W = math.prod(sum(map(abs, w)) for w in weights) if weights else 1
    for t in ts:
        while abs(t['c']) * W * math.prod(max(1, x) ** a for x, a in zip(X, t['e'])) > 3e8:
            t['e'][t['e'].index(max(t['e']))] -= 1
    return ts


def to_sym(ts, vs):
    import sympy
    e = sympy.Integer(0)
    for t in ts:
        f = sympy.Integer(t['c'])
        for v, a, s in zip(vs, t['e'], t['s']):
            f *= v ** a
            if s:
                f *= sympy.cos(sympy.pi * v)
        e += f
    return e


def ccode(ts):
    out = []
    for t in ts:
        f = '(%d.)' % t['c']
        for i, (a, s) in enumerate(zip(t['e'], t['s'])):
            f += ''.join('*v[%d]' % i for _ in range(a))
            if s:
                f += '*cos(M_PI*v[%d])' % i
        out.append(f)
    return ' + '.join(out)


def grid(rr, D, cnts):
    nodes = [[rr.randint(-2, 2) for _ in range(c)] for c in cnts]
    weights = [[rr.choice([-2, -1, 1, 2, 3]) for _ in range(c)] for c in cnts]
    return nodes, weights


def mk_quad(case, rr, hm, np):
    D, lab = case['dim'], case['labels']
    mean = [rr.randint(-3, 3) for _ in range(D)]
    u = 2. ** case.get('unit', 0)
    if case.get('nd'):
        F = np.array(rr.choice(nd_positions(D)), dtype=float)
        cov = F.dot(F.T)
    else:
        sd = [rr.randint(1, 3) for _ in range(D)]
        cov = np.diag([float(s * s) for s in sd])
    cnt = rr.choice([1, 2, 3]) if D < 5 else 2
    nodes, weights = grid(rr, D, [cnt] * D)
    if case.get('far'):
        i = rr.randrange(D)
        nodes[i] = [rr.choice([-1, 1]) * rr.randint(9, 33) for _ in range(cnt)]
    q = hm.Quad(nodes, weights, mean=[float(x) * u for x in mean], cov=cov * u ** 2, dirs=list(lab))
    base = {'nodes': nodes, 'mean': mean, 'F': [ints(r / u) for r in q.position.factor],
            'cov': [ints(r) for r in cov]}
    return q, base, weights


def run(case):
    import numpy as np
    import sympy
    import hermipy.core as core
    hm = hermipy()
    rr = random.Random(case['seed'])
    tr = []
    if case['t'] == 'trapz':
        n, D = rr.choice([3, 5, 9, 12]), rr.randint(1, 3)
        ext = [rr.choice([.5, 1., 2., 3.]) for _ in range(D)]
        q = hm.Quad.newton_cotes([n] * D, ext)
        tr.append({'op': 'same', 'a': [len(q.nodes), len(q.weights)], 'b': [D, D]})
        for nodes, w, e in zip(q.nodes, q.weights, ext):
            h = 2 * e / (n - 1)
            tr.append({'op': 'same', 'a': ints(2 * np.asarray(nodes) / h) + ints(
                2 * np.asarray(w) / h / np.exp(-np.asarray(nodes) ** 2 / 2) * math.sqrt(2 * math.pi)),
                'b': [2 * i - n + 1 for i in range(n)] + [1] + [2] * (n - 2) + [1]})
        return tr
    D = case['dim']
    if case['t'] == 'core':
        nodes, weights = grid(rr, D, case.get('cnt') or [rr.choice([1, 2, 3, 4] if D < 4 else [1, 2]) for _ in range(D)])
        sc = rr.choice([0, 0, -60, -25, 25, 60])
        F = [[rr.randint(-2, 2) for _ in range(D)] for _ in range(D)]
        mean = [rr.randint(-2, 2) for _ in range(D)]
        cov = [[sum(F[i][k] * F[j][k] for k in range(D)) for j in range(D)] for i in range(D)]
        ts = tame(expr_terms(rr, D, 3, 2), {'mean': mean, 'F': F, 'nodes': nodes}, weights)
        fn = [np.array(v, dtype=float) for v in nodes]
        v = core.discretize('%r*(%s)' % (2. ** sc, ccode(ts)) if sc else ccode(ts), fn, np.array(mean, dtype=float), np.array(F, dtype=float))
        tr.append({'op': 'sample', 'nodes': nodes, 'mean': mean, 'F': F, 'cov': cov, 'terms': ts,
                   'res': ints(np.asarray(v) / 2. ** sc)})
        fw = [np.array(x, dtype=float) for x in weights]
        vals = [rr.randint(-9, 9) for _ in range(math.prod(map(len, nodes)))]
        df = {} if rr.random() < .5 else {'do_fourier': [rr.randint(0, 1) for _ in range(D)]}
        tr.append({'op': 'gridsum', 'nodes': nodes, 'weights': weights, 'vals': vals, 'what': 'int',
                   'res': as_int(core.integrate(np.array(vals, dtype=float) * 2. ** sc, fn, fw, **df) / 2. ** sc)})
        return tr
    if case['t'] == 'quad':
        lab = case['labels']
        q, base, weights = mk_quad(case, rr, hm, np)
        ts = tame(expr_terms(rr, D), base, weights)
        nota = rr.choice(['xyz', 'sub', 'str', 'fun'])
        unit = sympy.Integer(2) ** case.get('unit', 0)
        vs = [(hm.Function.x_sub if nota == 'sub' else hm.Function.xyz)[d] / unit for d in lab]
        sc = rr.choice(gal.SCALES + [-60])
        e = to_sym(ts, vs) * sympy.Integer(2) ** sc
        u = 2. ** sc
        arg = {'str': str(e), 'fun': None}.get(nota, e)
        if nota == 'fun':
            arg = gal.any_function(rr, e, lab)
        tr.append(dict(base, op='sample', terms=ts, res=ints(q.discretize(arg) / u)))
        tr.append(dict(base, op='mapped', res=[ints(r / float(unit)) for r in np.asarray(q.mapped_nodes())]))
        vals = [rr.randint(-9, 9) for _ in range(len(q.discretize(1)))]
        a = np.array(vals, dtype=float)
        g = {'op': 'gridsum', 'nodes': base['nodes'], 'weights': weights, 'vals': vals}
        tr.append(dict(g, what='int', res=as_int(q.integrate(a))))
        tr.append(dict(g, what='norm1', res=as_int(q.norm(a, n=1))))
        x = q.norm(a, n=2)
        sq = sum(math.prod(weights[i][p[i]] for i in range(D)) * v * v for p, v in
                 zip(np.ndindex(*[len(n) for n in base['nodes']]), vals))
        if sq >= 0:
            tr.append(dict(g, what='norm2', res=as_int(x * x)))
        kw = rr.choice([{}, {'tensorize': False}, {'tensorize': True}])
        tr.append(dict(base, op='qsum', weights=weights, terms=ts, what='int', res=as_int(q.integrate(arg, **kw) / u)))
        # flat: the same expression times the density
        C = sympy.Matrix([[sympy.Integer(x) for x in r] for r in base['cov']])
        y = sympy.Matrix([v - m for v, m in zip(vs, base['mean'])])
        dens = sympy.exp(-(y.T * C.inv() * y)[0] / 2) / sympy.sqrt((2 * sympy.pi) ** D * C.det()) / unit ** D
        f = sympy.expand(e * dens)
        tr.append(dict(base, op='qsum', weights=weights, terms=ts, what='int',
                       res=as_int(q.integrate(f, flat=True, **kw) / u, 1e-5)))
        # norms of the expression, in the weighted space and flat
        for what, n, g in (('norm1', 1, dens), ('norm2', 2, sympy.sqrt(dens))):
            sq = [math.prod(weights[i][p[i]] for i in range(D)) * float(v) ** n for p, v in
                  zip(np.ndindex(*[len(n) for n in base['nodes']]), np.abs(q.discretize(e) / u))]
            if not 0.5 < sum(sq) <= sum(map(abs, sq)) < 1e9:
                continue
            tr.append(dict(base, op='qsum', weights=weights, terms=ts, what=what, res=as_int((q.norm(e, n=n) / u) ** n, 1e-5)))
            tr.append(dict(base, op='qsum', weights=weights, terms=ts, what=what,
                           res=as_int((q.norm(e * g, n=n, flat=True) / u) ** n, 1e-5)))
        return tr
    lab = case['labels']
    if case['t'] == 'density':
        ty = [rr.choice('hhf') for _ in lab]
        if case['nd']:
            ty = ['h'] * D
        q, base, weights = mk_quad(case, rr, hm, np)
        pos = hm.Position(dirs=list(lab), mean=q.position.mean, cov=q.position.cov, types=['hermite' if t == 'h' else 'fourier' for t in ty])
        parts = [(pos.weight(), [i for i in range(D) if ty[i] == 'h'])]
        if not case['nd']:
            ws = pos.weights()
            tr.append({'op': 'same', 'a': len(ws), 'b': D})
            parts += [(w, [i] if ty[i] == 'h' else []) for i, w in enumerate(ws)]
        for w, ind in parts:
            w = sympy.sympify(w)
            vs = [hm.Function.xyz[lab[i]] for i in ind]
            tr.append({'op': 'same', 'a': sorted(map(str, w.free_symbols)), 'b': sorted(map(str, vs))})
            cov = [[base['cov'][i][j] for j in ind] for i in ind]
            m = [base['mean'][i] for i in ind]
            at = lambda y: float(w.subs([(v, a + b) for v, a, b in zip(vs, m, y)]))
            top = at([0] * len(ind))
            det = as_int(1 / (top ** 2 * (2 * math.pi) ** len(ind)), 1e-5)
            pts = [[rr.randint(-4, 4) for _ in ind] for _ in range(6)] if ind else []
            tr.append({'op': 'density', 'cov': cov, 'det': det, 'pts': pts,
                       'res': [as_int(-2 * math.log(at(y) / top) * det, 1e-5) if top > 0 and at(y) > 0 else 2000000001 for y in pts]})
        return tr
    if case['t'] == 'series':
        # integrals and norms of series
        from drivers import tens
        q, base, weights = mk_quad(case, rr, hm, np)
        kind = rr.choice(tens.KINDS)
        n = rr.randint(1, 3 if D < 3 else 2)
        lst = tens.lst(kind, D, n)
        k = [rr.randint(-3, 3) for _ in lst]
        s = hm.Series(np.array([a * gal.scale(['h'] * D, m) for a, m in zip(k, lst)]), q.position, index_set=kind)
        v = ints(q.eval(s))
        z = [0] * D
        tr.append({'op': 'evalat', 'kind': kind, 'deg': n, 'list': lst, 'coeffs': k, 'mean': z, 'sd': [1] * D,
                   'qmean': z, 'qsd': [1] * D, 'nodes': base['nodes'], 'res': v})
        g = {'op': 'gridsum', 'nodes': base['nodes'], 'weights': weights, 'vals': v}
        if max(map(abs, v)) < 1000:
            tr.append(dict(g, what='int', res=as_int(q.integrate(s))))
            tr.append(dict(g, what='norm1', res=as_int(q.norm(s, n=1))))
            x = [math.prod(weights[i][p[i]] for i in range(D)) for p in np.ndindex(*[len(m) for m in base['nodes']])]
            if sum(a * b * b for a, b in zip(x, v)) >= 0:
                tr.append(dict(g, what='norm2', res=as_int(q.norm(s) ** 2)))
        return tr
    if case['t'] == 'expect':
        sp = gal.rand_space(rr, D, case['types'])
        if case['flat']:
            for s in sp:
                if s['t'] == 'f':
                    s['sg'] = 1
        terms = [gal.rand_term(rr, sp, 4, 6) for _ in range(rr.randint(1, 3))]
        n = gal.need_points(sp, terms, 0)
        q = gal.quad(sp, lab, n)
        e = gal.sym_fun(terms, lab, sp)
        if case['flat']:
            for d, s in zip(lab, sp):
                if s['t'] == 'h':
                    x = hm.Function.xyz[d]
                    e = e * sympy.exp(-(x - s['mu']) ** 2 / sympy.Integer(2 * s['sg'] ** 2)) / \
                        (s['sg'] * sympy.sqrt(2 * sympy.pi))
            e = sympy.expand(e)
        kw = [{}, {'tensorize': False}, {'tensorize': True}][case['tens']]
        if case['flat']:
            kw['flat'] = True
        res = q.integrate(e, **kw)
        nf = sum(s['t'] == 'f' for s in sp)
        tr.append({'op': 'expect', 'sp': sp, 'terms': gal.spec_terms(terms),
                   'res': as_int(res / (2 * math.pi) ** nf * 2 ** nf, 1e-5)})
        return tr
    # composite rules: same position, different nodes and weights
    q, base, weights = mk_quad(case, rr, hm, np)
    ts = tame(expr_terms(rr, D), base, [[9, 9]] * D)
    vs = [hm.Function.xyz[d] for d in lab]
    e = to_sym(ts, vs)
    quads, parts, qw = [], [], []
    for _ in range(rr.randint(1, 3)):
        cnt = rr.choice([1, 2, 3])
        nodes, weights = grid(rr, D, [cnt] * D)
        qq = hm.Quad(nodes, weights, position=q.position)
        v = as_int(qq.integrate(e))
        tr.append(dict(base, nodes=nodes, op='qsum', weights=weights, terms=ts, what='int', res=v))
        quads.append(qq)
        parts.append(v)
        qw.append(rr.choice([-2, -1, 1, 2, 3]))
    from hermipy.compquad import CompQuad
    c = CompQuad(quads, qw)
    tr.append({'op': 'comb', 'qw': qw, 'parts': parts, 'res': as_int(c.integrate(e))})
    return tr
