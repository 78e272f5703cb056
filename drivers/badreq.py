"""Catalogue of requests outside the domain of the library (C22).  Each entry
is a function of a random generator returning a list of callables; calling
one must raise an exception."""
import random

from drivers.common import KINDS, hermipy, listing

BADSETS = ['foo', '', 'Triangle', 'triangle ', 'cross-nc', 'crossnc', 'tri', 'hypercube', 'TRIANGLE', 'cubes']


def wrong_count(rr, kind, dim):
    from drivers import tens
    sizes = set()
    n = 0
    while n < 40:
        c = tens.count(kind, dim, n)
        sizes.add(c)
        if c > 300:
            break
        n += 1
    for _ in range(200):
        c = rr.randint(1, 250)
        if c not in sizes:
            return c
    return None


def index_set(rr):
    """unknown index sets, everywhere one can be given"""
    import numpy as np
    import hermipy.core as core
    hm = hermipy()
    s = rr.choice(BADSETS)
    D = rr.choice([1, 2, 3])
    n = rr.randint(0, 3)
    q = hm.Quad.gauss_hermite(n + 2, dim=D)
    nodes, weights = np.array(q.nodes), np.array(q.weights)
    grid = np.ones((n + 2) ** D)
    N = len(listing('triangle', D, n))
    v, m = np.ones(N), np.eye(N)
    w, k = np.ones(n + 1), np.eye(n + 1)
    pos = hm.Position(dim=D)
    x = hm.Function.xyz[0]
    return [lambda: core.iterator_size(D, n, index_set=s),
            lambda: core.iterator_list_indices(D, n, index_set=s),
            lambda: core.iterator_get_degree(D, N, index_set=s),
            lambda: core.iterator_index([0] * D, index_set=s),
            lambda: core.transform(n, grid, nodes, weights, True, index_set=s),
            lambda: core.transform(n, v, nodes, weights, False, index_set=s),
            lambda: core.varf(n, grid, nodes, weights, index_set=s),
            lambda: core.varf(n, grid, nodes, weights, sparse=True, index_set=s),
            lambda: core.varfd(D, n, 0, m, index_set=s),
            lambda: core.tensorize({frozenset({0}): w, frozenset({1}): w}, index_set=s),
            lambda: core.tensorize({frozenset({0}): k, frozenset({1}): k}, index_set=s),
            lambda: core.tensorize({frozenset({0}): k, frozenset({1}): k}, sparse=True, index_set=s),
            lambda: core.tensorize([w, w], index_set=s),
            lambda: core.tensorize([k, k], sparse=rr.random() < .5, index_set=s),
            lambda: core.tensorize(w, dim=2, direction=0, index_set=s),
            lambda: core.tensorize(k, dim=2, direction=1, index_set=s),
            lambda: core.project(v, D, [0], index_set=s),
            lambda: core.project(m, D, [0], index_set=s),
            lambda: core.inner(v, v, list(range(D)), list(range(D)), index_set=s),
            lambda: core.inner(w, w, [0], [1], index_set=s),
            lambda: hm.Series(v, pos, index_set=s),
            lambda: hm.Varf(m, pos, index_set=s),
            lambda: q.transform(x, n, index_set=s),
            lambda: q.varf(x, n, index_set=s),
            lambda: q.varfd(x, n, [0], index_set=s, tensorize=rr.random() < .5),
            lambda: q.discretize_op(hm.Operator('u(x)') if D == 1 else hm.Operator('0', dirs=list(range(D))), n, index_set=s)]


def not_ranked(rr):
    """ranks exist for the triangle and the cube only"""
    import hermipy.core as core
    return [lambda k=k: core.iterator_index([1, 2], index_set=k) for k in ('cross', 'cross_nc', 'rectangle')]


def counts(rr):
    """numbers of coefficients that fit no degree"""
    import numpy as np
    import scipy.sparse as ss
    import hermipy.core as core
    hm = hermipy()
    out = []
    for _ in range(6):
        kind = rr.choice(KINDS)
        D = rr.choice([2, 3]) if kind != 'cross_nc' else 2
        c = wrong_count(rr, kind, D)
        if c is None or c > 60:
            continue
        v, m = np.ones(c), np.eye(c)
        pos = hm.Position(dim=D)
        q = hm.Quad.gauss_hermite(4, dim=D)
        ds = list(range(D))

        def mk(kind=kind, D=D, c=c, v=v, m=m, pos=pos, q=q, ds=ds):
            return [lambda: core.iterator_get_degree(D, c, index_set=kind),
                    lambda: hm.Series(v, pos, index_set=kind), lambda: hm.Varf(m, pos, index_set=kind),
                    lambda: hm.Varf(ss.csr_matrix(m), pos, index_set=kind),
                    lambda: q.series(v, index_set=kind),
                    lambda: core.project(v, D, [0], index_set=kind), lambda: core.project(m, D, [0], index_set=kind),
                    lambda: core.project(ss.csr_matrix(m), D, [1], index_set=kind),
                    lambda: core.inner(v, v, ds, ds, index_set=kind),
                    lambda: core.inner(v, np.ones(3), ds, [4], index_set=kind)]
        out += mk()
    return out


def array_sizes(rr):
    """arrays that do not fit the request"""
    import numpy as np
    import scipy.sparse as ss
    import hermipy.core as core
    hm = hermipy()
    D = rr.choice([1, 2, 3])
    n = rr.randint(1, 3)
    kind = rr.choice(KINDS)
    p = n + 2
    q = hm.Quad.gauss_hermite(p, dim=D)
    nodes, weights = np.array(q.nodes), np.array(q.weights)
    N = len(listing(kind, D, n))
    off = rr.choice([-1, 1])
    g = np.ones(p ** D + off)
    v, m = np.ones(N + off), np.eye(N + off)
    e = np.eye(N)
    t = len(listing(kind, 2, n))
    return [lambda: core.integrate(g, nodes, weights),
            lambda: core.transform(n, g, nodes, weights, True, index_set=kind),
            lambda: core.transform(n, v, nodes, weights, False, index_set=kind),
            lambda: core.varf(n, g, nodes, weights, index_set=kind),
            lambda: core.varf(n, g, nodes, weights, sparse=True, index_set=kind),
            lambda: core.varfd(D, n, 0, m, index_set=kind),
            lambda: core.varfd(D, n, 0, ss.csr_matrix(m), index_set=kind),
            lambda: core.varfd(D, n, D, e, index_set=kind),
            lambda: core.varfd(D, n, 0, e[:, :-1], index_set=kind),
            lambda: core.integrate(np.ones(p ** D), nodes, weights[:, :-1]),
            lambda: core.integrate(np.ones(p ** D), nodes, np.vstack([weights, weights])),
            lambda: core.transform(n, np.ones(p ** D), nodes, weights[:, :-1], True, index_set=kind),
            lambda: core.transform(n, np.ones(p ** D), nodes, weights, True, do_fourier=[0] * (D + 1), index_set=kind),
            lambda: core.integrate(np.ones(p ** D), nodes, weights, do_fourier=[0] * (D + 1)),
            lambda: core.varf(n, np.ones(p ** D), nodes, weights, do_fourier=[0] * (D - 1), index_set=kind),
            lambda: core.project(np.ones((N, N + 1)), D, [0], index_set=kind),
            lambda: hm.Varf(np.ones((N, N + 1)), hm.Position(dim=D), index_set=kind),
            lambda: hm.Varf(np.ones((N + 1, N)), hm.Position(dim=D), index_set=kind),
            lambda: hm.Series(np.ones(0), hm.Position(dim=D), index_set=kind),
            lambda: q.integrate(g), lambda: q.transform(g, n, index_set=kind), lambda: q.varf(g, n, index_set=kind),
            lambda: core.discretize('v[0]', nodes, np.zeros(D + 1), np.eye(D)),
            lambda: core.discretize('v[0]', nodes, np.zeros(D), np.eye(D + 1)),
            lambda: core.discretize('v[0]', nodes, np.zeros(max(D - 1, 0)), np.eye(D)),
            lambda: core.discretize('v[0]', nodes, np.zeros(D), np.eye(D)[:, :-1])]


def parts(rr):
    """parts that do not fit together"""
    import numpy as np
    import hermipy.core as core
    hm = hermipy()
    n = rr.randint(1, 3)
    kind = rr.choice(KINDS)
    a, b = np.ones(n + 1), np.ones(n + 2)
    A, B = np.eye(n + 1), np.eye(n + 2)
    t = np.ones(len(listing(kind, 2, n)))
    T = np.eye(len(t))
    f = frozenset
    P = hm.Position
    s1 = hm.Series(a, P(dirs=[0], mean=[0.], cov=[[1.]]), index_set=kind)
    s2 = hm.Series(b, P(dirs=[1], mean=[0.], cov=[[1.]]), index_set=kind)
    v1 = hm.Varf(A, P(dirs=[0], mean=[0.], cov=[[1.]]), index_set=kind)
    v2 = hm.Varf(B, P(dirs=[1], mean=[0.], cov=[[1.]]), index_set=kind)
    sp = rr.random() < .5
    out = [lambda: core.tensorize({f({0}): a, f({1}): b}, index_set=kind),
           lambda: core.tensorize({f({0}): A, f({1}): B}, sparse=sp, index_set=kind),
           lambda: core.tensorize([a, b], index_set=kind),
           lambda: core.tensorize([A, B], sparse=sp, index_set=kind),
           lambda: core.tensorize({f({0, 1}): T, f({1, 2}): T}, sparse=sp, index_set=kind),
           lambda: core.tensorize({f({0, 1}): t, f({1}): a}, index_set=kind),
           lambda: core.tensorize({f({0}): a, f({2}): a}, index_set=kind),
           lambda: core.tensorize(a, dim=2, direction=2, index_set=kind),
           lambda: core.tensorize(A, dim=2, direction=5, sparse=sp, index_set=kind),
           lambda: core.inner(a, b, [0], [0], index_set=kind),
           lambda: core.inner(t, b, [0, 1], [1], index_set=kind),
           lambda: core.inner(t, a, [1, 0], [0], index_set=kind),
           lambda: core.inner(t, t, [0, 0], [0, 1], index_set=kind),
           lambda: core.project(t, 2, [2], index_set=kind),
           lambda: core.project(t, 2, [0, 0], index_set=kind),
           lambda: core.project(T, 2, [0, 1, 2], index_set=kind),
           lambda: s1 * s2, lambda: v1 * v2, lambda: s1 + s2, lambda: v1 + v2, lambda: v1(s2), lambda: v1.solve(s2),
           lambda: hm.Varf.tensorize([v1, v1]),
           lambda: s1.project(1), lambda: v1.project([0, 1]), lambda: v1.project(3), lambda: s1.project([1])]
    return out


def expressions(rr):
    """expressions that do not compile or mention foreign variables"""
    import numpy as np
    import sympy
    import hermipy.core as core
    hm = hermipy()
    D = rr.choice([1, 2])
    ds = sorted(rr.sample(range(5), D))
    other = rr.choice([d for d in range(5) if d not in ds])
    names = ['x', 'y', 'z', 'w', 'v']
    q = hm.Quad.gauss_hermite(3, dirs=list(ds))
    x, y = names[ds[0]], names[other]
    tag = rr.randint(0, 10 ** 6)
    nodes, z, e = np.array(q.nodes), np.zeros(D), np.eye(D)
    a = sympy.Symbol('a%d' % (tag % 7))
    X, Y = hm.Function.xyz[ds[0]], hm.Function.xyz[other]
    u = sympy.Function('u')
    return [lambda: core.discretize('v[0] + (%d' % tag, nodes, z, e),
            lambda: core.discretize('nosuch%d(v[0])' % tag, nodes, z, e),
            lambda: core.discretize('v[0] + t%d' % tag, nodes, z, e),
            lambda: core.discretize('', nodes, z, e),
            lambda: core.discretize('"s%d"' % tag, nodes, z, e),
            lambda: core.discretize('v[0] +* %d' % tag, nodes, z, e),
            lambda: q.discretize(X * Y), lambda: q.discretize(Y), lambda: q.discretize(X * a), lambda: q.discretize(y),
            lambda: q.discretize(hm.Function(X * Y, dirs=sorted(ds + [other]))), lambda: q.discretize(hm.Function(Y, dirs=[other])),
            lambda: q.transform(hm.Function(Y, dirs=[other]), 1), lambda: q.varf(hm.Function(Y + X, dirs=sorted(ds + [other])), 1),
            lambda: q.integrate(hm.Function(Y, dirs=[other])), lambda: q.varfd(hm.Function(Y, dirs=[other]), 1, [ds[0]], tensorize=False),
            lambda: q.discretize('%s*%s' % (x, y)), lambda: q.discretize('nosuch(%s)' % x),
            lambda: q.integrate(X * Y), lambda: q.integrate(y, tensorize=False), lambda: q.integrate(a * X), lambda: q.integrate(a),
            lambda: q.transform(X * Y, 1), lambda: q.transform(a * X + 1, 1, tensorize=False),
            lambda: q.varf(Y, 1), lambda: q.varf(X * a, 1, tensorize=False), lambda: q.varf(X * a, 1),
            lambda: q.varfd(X * Y, 1, [ds[0]]),
            lambda: q.varfd(X, 1, [other], tensorize=rr.random() < .5), lambda: q.varfd(X, 1, [ds[0], other]),
            lambda: hm.Function(X * Y, dirs=list(ds)), lambda: hm.Function(y, dirs=list(ds)),
            lambda: hm.Function('x +', dirs=list(ds)), lambda: hm.Function('x y', dirs=[0, 1]),
            lambda: hm.Function(u(X), dirs=list(ds)).ccode() and q.discretize(u(X)),
            lambda: q.integrate(u(X)), lambda: q.varf(u(X) * X, 1),
            lambda: q.discretize_op(Y * u(*[hm.Function.xyz[d] for d in ds]), 1),
            lambda: q.discretize_op(a * u(*[hm.Function.xyz[d] for d in ds]), 1),
            lambda: q.discretize_op(hm.Operator(u(Y)), 1),
            lambda: q.discretize_op(hm.Operator('0', dirs=[other]), 1),
            lambda: q.discretize_op(u(*[hm.Function.xyz[d] for d in ds]) ** 2, 1)]


def geometry(rr):
    """positions, quadratures and functions with inconsistent dimensions or directions"""
    import numpy as np
    from hermipy.compquad import CompQuad
    hm = hermipy()
    P, Q, F = hm.Position, hm.Quad, hm.Function
    q1, q2 = Q.gauss_hermite(3, dirs=[0]), Q.gauss_hermite(3, dirs=[0, 1])
    nd = Q.gauss_hermite(3, dirs=[0, 1], cov=np.array([[2., .5], [.5, 1.]]))
    s1 = q1.transform('1', 2)
    s2 = q2.transform('1', 2)
    p = P(dirs=[0, 2], mean=[0., 1.], cov=np.diag([1., 2.]))
    return [lambda: P(mean=[0., 0.], cov=[[1.]]), lambda: P(dim=2, mean=[0.]), lambda: P(dim=2, cov=np.eye(3)),
            lambda: P(dim=2, dirs=[0]), lambda: P(dirs=[0], types=['hermite', 'fourier'], mean=[0.]),
            lambda: P(dim=1, types=['foo']), lambda: P(),
            lambda: p.project([1]), lambda: p.project([2, 0]), lambda: p.project([0, 1, 2]), lambda: p.project(4),
            lambda: P.tensorize([p, P(dirs=[2], mean=[5.], cov=[[2.]])]),
            lambda: P.tensorize([p, P(dirs=[2], mean=[1.], cov=[[3.]])]),
            lambda: P.tensorize([nd.position, q1.position]), lambda: nd.position.project([0]),
            lambda: q1.project([1]), lambda: q2.project([3]), lambda: nd.project([0]), lambda: nd * Q.gauss_hermite(3, dirs=[2]),
            lambda: Q.fourier(4, bounds=[(0, 1)], dirs=[0, 1]), lambda: Q.tensorize([]),
            lambda: Q.fourier([3, 3], bounds=[(0, 1)]),
            lambda: q1.eval(s2), lambda: q2.eval(s1), lambda: q2.eval(np.ones(4)), lambda: q2.series(np.ones(4)),
            lambda: nd.eval(s2), lambda: q1 == 3, lambda: q1.norm(s1, n=3), lambda: q1.norm(s1, n=0), lambda: q1.norm(s1, n='1'),
            lambda: Q.gauss_hermite(3, dirs=[1]).eval(s1), lambda: Q.gauss_hermite(3, dirs=[0, 2]).eval(s2),
            lambda: Q.gauss_hermite(3, dirs=[1]).integrate(s1), lambda: Q.gauss_hermite(3, dirs=[2]).norm(s1),
            lambda: Q.fourier(6, dirs=[0]).transform('cos(x)', 2).to_function(),
            lambda: (q1 * Q.fourier(6, dirs=[1])).series(np.ones(6)).to_function(), lambda: p == 3, lambda: s1 == 3,
            lambda: CompQuad([], []), lambda: CompQuad([q1], [1, 2]), lambda: CompQuad([q1, q2], [1, 1]), lambda: CompQuad([q1], [1]) == 3,
            lambda: F('x', dirs=[0]) * F('y', dirs=[1]), lambda: F('x', dirs=[0]) + F('y', dirs=[1]),
            lambda: F('exp(x*y)', dirs=[0, 1]).project([0]), lambda: F('x+y', dirs=[0, 1]).project([0]),
            lambda: F.tensorize([F('x', dirs=[0]), F('x', dirs=[0])]),
            lambda: F('x', dirs=[1]), lambda: F('x', dirs=[1, 0]), lambda: F('x', dirs=[7]), lambda: F('x', dim=9),
            lambda: float(s1), lambda: s1.to_cross(5), lambda: nd.transform('1', 1).to_function(),
            lambda: hm.Operator('u(x)') + hm.Operator('u(y)'), lambda: hm.Operator('u(x)')(hm.Operator('u(y)')),
            lambda: hm.Operator('1'), lambda: hm.Operator('u(x)*u(x)').split(), lambda: hm.Operator('x').split()]


def types_(rr):
    """arguments of types the library does not take"""
    import numpy as np
    import scipy.sparse as ss
    import hermipy.core as core
    hm = hermipy()
    q = hm.Quad.gauss_hermite(3, dirs=[0])
    nodes, weights = np.array(q.nodes), np.array(q.weights)
    C = np.eye(3) * (1 + 1j)
    s = q.transform('x', 2)
    v = q.varf('x', 2)

    class Foo:
        pass
    return [lambda: core.varfd(1, 2, 0, C), lambda: core.varfd(1, 2, 0, ss.csr_matrix(C)), lambda: core.project(C, 1, [0]),
            lambda: core.project(np.ones(3) * 1j, 1, [0]), lambda: core.inner(np.ones(3) * 1j, np.ones(3), [0], [0]),
            lambda: core.transform(2, np.ones(3) * 1j, nodes, weights, True), lambda: core.integrate(np.ones(3) * 1j, nodes, weights),
            lambda: core.transform(2, 'abc', nodes, weights, True), lambda: core.transform(2, np.array(['a', 'b', 'c']), nodes, weights, True),
            lambda: core.transform('a', np.ones(3), nodes, weights, True), lambda: core.transform(-1, np.ones(3), nodes, weights, True),
            lambda: core.varf(-2, np.ones(3), nodes, weights), lambda: core.varf(1.5, np.ones(3), nodes, weights), lambda: core.varf('2', np.ones(3), nodes, weights),
            lambda: core.varfd(1, 2, -1, np.eye(3)), lambda: core.varfd(1, -2, 0, np.eye(3)), lambda: core.varfd(1, 2, 0, 'm'), lambda: core.varfd(1, 2, 0, np.ones(3)),
            lambda: core.varfd(1, 2, 0, np.ones((3, 3, 3))),
            lambda: core.iterator_size(-1, 2), lambda: core.iterator_size(2, -1), lambda: core.iterator_size(2, 1.5), lambda: core.iterator_size('2', 2),
            lambda: core.iterator_list_indices(2, -1), lambda: core.iterator_list_indices(-2, 1), lambda: core.iterator_list_indices(2, None),
            lambda: core.iterator_get_degree(2, -3), lambda: core.iterator_get_degree(2, 0), lambda: core.iterator_get_degree(-2, 3), lambda: core.iterator_index([-1, 0]),
            lambda: core.iterator_index('ab'), lambda: core.iterator_index([1.5, 0]),
            lambda: core.discretize(3, nodes, np.zeros(1), np.eye(1)), lambda: core.discretize(None, nodes, np.zeros(1), np.eye(1)),
            lambda: core.tensorize(Foo()), lambda: core.tensorize({frozenset({0}): 'a'}), lambda: core.tensorize([]), lambda: core.tensorize(np.eye(3)),
            lambda: core.tensorize(np.ones((2, 2, 2)), dim=2, direction=0),
            lambda: core.project(Foo(), 1, [0]), lambda: core.project(np.ones(3), 1, [-1]), lambda: core.project(np.ones(3), 1, 'a'),
            lambda: core.to_csr(3), lambda: core.convert_to_cpp_sparse(np.eye(2)), lambda: core.convert_to_cpp_sparse(ss.csc_matrix(np.eye(2))),
            lambda: q.discretize(Foo()), lambda: q.integrate(Foo()), lambda: q.transform(Foo(), 1), lambda: q.transform('x', -1), lambda: q.transform('x', 'a'), lambda: q.varf('x', -1),
            lambda: q.varf('x', 1.5), lambda: q.discretize_op(3, 1), lambda: q.discretize_op(Foo(), 1), lambda: q.discretize_op('u(x)', -1), lambda: q.eval('x'), lambda: q.eval(3),
            lambda: hm.Series(3, q.position), lambda: hm.Series('abc', q.position), lambda: hm.Varf(3, q.position),
            lambda: s + 'a', lambda: s * 'a', lambda: s + v, lambda: v + s, lambda: v * 'a', lambda: v('a'), lambda: v.solve(v), lambda: s / s, lambda: s.project('a'), lambda: v.project('a'),
            lambda: s.subdegree(-1), lambda: v.subdegree(-1), lambda: s.subdegree('a'), lambda: v.to_cross('a'),
            lambda: hm.Quad.gauss_hermite(0), lambda: hm.Quad.gauss_hermite('a'), lambda: hm.Quad.gauss_hermite(-2, dim=1)]


def cached(rr):
    """unsupported argument types of a cached function, caching on"""
    import numpy as np
    from hermipy.cache import cache

    class Foo:
        pass

    @cache()
    def f(*args, **kwargs):
        return 1.
    hm = hermipy()

    def on(g):
        def h():
            old = hm.settings['cache']
            hm.settings['cache'] = True
            try:
                return g()
            finally:
                hm.settings['cache'] = old
        return h
    return [on(lambda: f(Foo())), on(lambda: f([1, Foo()])), on(lambda: f(k=Foo())), on(lambda: f({1: Foo()})), on(lambda: f((1, (2, Foo())))), on(lambda: f(object()))]


FAMILIES = [index_set, not_ranked, counts, array_sizes, parts, expressions, geometry, types_, cached]
