"""Shared by the transform / quadrature / matrix drivers (C07-C11, C14, C15).
Conversion between the normalised bases of the library and the integer bases
of spec/Galerkin.tla, and generation of spaces, terms and expressions."""
import math
import random

from drivers import tens
from drivers.common import BAD, LIM, as_int, hermipy, in_set, ints

S2, S1 = math.sqrt(2 * math.pi), math.sqrt(math.pi)


def nrm(t, m):
    """monic coefficient k of the basis function = normalised coefficient / nrm"""
    if t == 'h':
        return math.sqrt(math.factorial(m))
    if t == 't':
        return S2 if m == 0 else (S1 * 2 / math.sqrt(3) if m % 2 else S1 * 2)
    return S2 if m == 0 else S1          # 'f' and the grid 'q'


def scale(types, m):
    r = 1.
    for t, x in zip(types, m):
        r *= nrm(t, x)
    return r


def he(x, n):
    a, b = 1, x
    if n == 0:
        return 1
    for k in range(1, n):
        a, b = b, x * b - k * a
    return b


def he_poly(n):
    """integer coefficients of He_n, lowest first"""
    a, b = [1], [0, 1]
    if n == 0:
        return a
    for k in range(1, n):
        c = [0] + b
        for i, v in enumerate(a):
            c[i] -= k * v
        a, b = b, c
    return b


SCALES = [0, 0, 0, -20, -34, 20, 40, 60]      # functions are multiplied by these powers of two


def mat_ints(A, sp, lst, K, sc=0):
    """matrix of the library (of a function multiplied by 2**sc) -> integer matrix of the specification"""
    import numpy as np
    import scipy.sparse as ss
    A = A.toarray() if ss.issparse(A) else np.asarray(A)
    types = [d['t'] for d in sp]
    S = np.array([scale(types, m) for m in lst])
    f = 2. ** sum(t == 'f' for t in types)
    for d, k in zip(sp, K):
        f *= d['sg'] ** k
    A = A.real if np.iscomplexobj(A) and np.abs(A.imag).max() < 1e-9 else A
    A = A / 2. ** sc
    big = float(np.abs(A).max()) if A.size else 0.
    if not big < 1e300:
        return [[BAD] * A.shape[-1] for _ in range(A.shape[0])]
    if A.shape != (len(lst), len(lst)):
        return [[BAD]]
    A = np.where(np.abs(A) < 1e-10 * max(big, 1e-12), 0., A)
    M = A * S[None, :] / S[:, None] * f
    return [[as_int(x, 1e-5) for x in r] for r in M]


def triple_ev(t, n):
    """the table of products of basis functions, on the unnormalised basis"""
    import numpy as np
    import hermipy.core as core
    T = np.asarray((core.triple_products if t == 'h' else core.triple_products_fourier)(n), dtype=float)
    if T.ndim != 3:
        return {'op': 'triple', 't': t, 'deg': n, 'res': []}
    s = [math.sqrt(math.factorial(k)) if t == 'h' else math.sqrt(math.pi * (1 + (k == 0))) for k in range(2 * n + 1)]
    f = 1 if t == 'h' else 2
    return {'op': 'triple', 't': t, 'deg': n,
            'res': [[[as_int(f * x * s[i] * s[j] / s[k], 1e-5) for j, x in enumerate(r)] for i, r in enumerate(m)]
                    if k < len(s) and max(m.shape) <= len(s) else [] for k, m in enumerate(T)]}


def spec_terms(terms):
    return [{'c': t['c'], 'f': t['f'], 'd': t['d']} for t in terms]


def sym_coeff(t, dirs, sp):
    import sympy
    xyz = hermipy().Function.xyz
    e = sympy.Integer(t['c'])
    for i, d in enumerate(dirs):
        name, a = t['f'][i]
        x = xyz[d]
        if name == 'x':
            e *= x ** a
        else:
            fn = sympy.cos if name == 'c' else sympy.sin
            e *= fn(sympy.Rational(a, sp[i]['sg']) * (x - sp[i]['mu']))
    return e


def sym_fun(terms, dirs, sp):
    import sympy
    e = sympy.Integer(0)
    for t in terms:
        e += sym_coeff(t, dirs, sp)
    return e


def sym_op(terms, dirs, sp):
    import sympy
    xyz = hermipy().Function.xyz
    vs = [xyz[d] for d in dirs]
    u = sympy.Function('u')(*vs)
    e = sympy.Integer(0)
    for t in terms:
        der = u
        for v, k in zip(vs, t['d']):
            der = sympy.diff(der, v, k) if k else der
        e += sym_coeff(t, dirs, sp) * der
    return e


def any_function(rr, e, dirs):
    """The expression as a Function of its directions, of those it depends on, or of more"""
    hm = hermipy()
    F = hm.Function
    names = {str(v) for v in e.free_symbols}
    need = [d for d in dirs if str(F.xyz[d]) in names or str(F.x_sub[d]) in names]
    how = rr.choice(['own', 'need', 'some', 'more'])
    if how == 'own':
        ds = list(dirs)
    elif how == 'need':
        ds = need
    elif how == 'some':
        ds = sorted(set(need) | {d for d in dirs if rr.random() < .5})
    else:
        ds = sorted(set(need) | {d for d in range(5) if rr.random() < .4})
    return F(e, dirs=ds)


def quad(sp, dirs, npts, factor=1):
    """Quadrature with the space sp (means and deviations integers), built in one of several ways."""
    import numpy as np
    hm = hermipy()
    how = (npts + sum(s['mu'] + 2 * s['sg'] for s in sp)) % 3
    kinds = {s['t'] for s in sp}
    if how == 1 and kinds == {'h'}:
        return hm.Quad.gauss_hermite(npts, dirs=list(dirs), mean=[float(s['mu']) for s in sp],
                                     cov=np.diag([float(s['sg'] ** 2) for s in sp]), factor=factor)
    if how == 1 and kinds == {'f'}:
        return hm.Quad.fourier(npts, dirs=list(dirs), factor=factor,
                               bounds=[(s['mu'] - math.pi * s['sg'], s['mu'] + math.pi * s['sg']) for s in sp])
    parts = []
    for d, s in zip(dirs, sp):
        if s['t'] == 'h':
            parts.append(hm.Quad.gauss_hermite(npts, dirs=[d], mean=[float(s['mu'])],
                                               cov=[[float(s['sg'] ** 2)]]))
        else:
            b = (s['mu'] - math.pi * s['sg'], s['mu'] + math.pi * s['sg'])
            parts.append(hm.Quad.fourier(npts, dirs=[d], bounds=[b]))
    if how == 2:
        q = hm.Quad.tensorize(parts)
        return q if factor == 1 else hm.Quad(q.nodes, q.weights, position=q.position, factor=factor)
    pos = hm.Position(dim=len(dirs), dirs=list(dirs), mean=[float(s['mu']) for s in sp],
                      cov=np.diag([float(s['sg'] ** 2) for s in sp]),
                      types=['hermite' if s['t'] == 'h' else 'fourier' for s in sp])
    return hm.Quad([p.nodes[0] for p in parts], [p.weights[0] for p in parts],
                   position=pos, factor=factor)


def need_points(sp, terms, n, extra=0):
    a = max([t['f'][i][1] for t in terms for i in range(len(sp)) if sp[i]['t'] == 'h'] or [0])
    p = max([t['f'][i][1] for t in terms for i in range(len(sp)) if sp[i]['t'] == 'f'] or [0])
    a += extra
    nh = (a + 2 * n) // 2 + 2 if any(s['t'] == 'h' for s in sp) else 1
    nf = p + n + 3 if any(s['t'] == 'f' for s in sp) else 1
    return max(nh, nf)


def rand_space(rr, D, types=None, mu=2, sgs=(1, 1, 2, 3)):
    return [{'t': types[i] if types else 'h', 'mu': rr.randint(-mu, mu), 'sg': rr.choice(sgs)}
            for i in range(D)]


def mix_scales(rr, terms):
    """one large term next to small ones"""
    terms[0]['c'] *= 10 ** rr.choice([4, 5, 6, 7])
    return terms


def rand_term(rr, sp, amax, tot, order=0):
    f, d, left = [], [0] * len(sp), tot
    for s in sp:
        a = min(rr.choice([0, 0, 1, 1, 2, amax]), left, amax)
        if s['t'] == 'h':
            left -= a
            f.append(['x', a])
        else:
            f.append([rr.choice('cs'), a] if a else ['c', 0])
    for _ in range(order):
        d[rr.randrange(len(sp))] += 1
    return {'c': rr.choice([-3, -2, -1, 1, 2, 3, 4]), 'f': f, 'd': d}


def mono_bound(sp, terms, n):
    """crude bound on the entries of the matrix, to stay within TLC's integers"""
    tot = 0
    for t in terms:
        b = abs(t['c'])
        for s, (name, a), k in zip(sp, t['f'], t['d']):
            if name == 'x':
                b *= math.factorial(n) // math.factorial(max(n - k, 0)) * \
                    (abs(s['mu']) + s['sg'] * (n + a + 1)) ** a
            else:
                b *= 2 * ((n + 1) // 2 + 1) ** k
            b *= s['sg'] ** k
        tot += b
    return tot


def degree_for(kind, D, rr, cap, even=False, lo=1, hi=12):
    m = min(tens.max_deg(kind, D, cap), hi)
    n = rr.choice([m, rr.randint(lo, max(lo, m))])
    if even:
        n -= n % 2
        n = max(n, 2)
    return n
