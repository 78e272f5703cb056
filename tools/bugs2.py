"""Second batch of planted bugs (development helper)."""
import sys
from mkbug import mk as _mk
CPP = 'cpp/src/hermite/'
IT = CPP + 'iterators.cpp'
ONLY = set(sys.argv[1:])


def mk(bid, *a, **k):
    if not ONLY or bid in ONLY:
        _mk(bid, *a, **k)


mk('c03-size-float', 'C03', 'a cube set with more than 2^24 multi-indices (for instance dimension 5, degree 30); sizes only, nothing that large is listed',
   'the size of a large cube set is rounded to single precision, and the degree recovered from a number of coefficients with it',
   [(IT, 'return (u_int) pow(degree + 1, dim);', 'return (u_int) powf(degree + 1, dim);')],
   '''
import hermipy.core as core
for d, n in ((4, 70), (5, 30), (5, 32), (6, 18), (7, 12)):
    assert core.iterator_size(d, n, index_set="cube") == (n+1)**d, (d, n)
''')

mk('c04-hash-collision', 'C04', 'multi-indices with entries of two digits (degree >= 11) in dimension >= 3 groups',
   'the text under which a multi-index is looked up loses its separator after the first entry, so different multi-indices of a group share a position',
   [(CPP + 'lib.cpp', 'hash += std::to_string(v[i]) + "-";', 'hash += std::to_string(v[i]) + (i > 0 ? "" : "-");')],
   '''
import numpy as np, hermipy.core as core
n, S = 12, "cross"
size = core.iterator_size(3, n, index_set=S)
L3 = [tuple(m) for m in core.iterator_list_indices(3, n, index_set=S)]
a = np.arange(1., size + 1)
b = np.zeros(core.iterator_size(1, n, index_set=S)); b[0] = 1
t = core.tensorize({frozenset({0, 1, 2}): a, frozenset({3}): b}, index_set=S)
L4 = [tuple(m) for m in core.iterator_list_indices(4, n, index_set=S)]
pos = {m: i for i, m in enumerate(L3)}
for m, v in zip(L4, t):
    assert v == (a[pos[m[:3]]] if m[3] == 0 else 0), m
''')

mk('c04-drop-small', 'C04', 'matrix tensorization with an entry smaller than 1e-14 in one factor (large in the other)',
   'small entries of a factor are dropped before multiplying, so the product entry is 0 instead of the product',
   [(CPP + 'sparse.cpp', '            if(input[i][j] != 0)\n', '            if(input[i][j] > 1e-14 || input[i][j] < -1e-14)\n')],
   '''
import numpy as np, hermipy.core as core
a = np.diag([1e-16, 2., 3.]); b = np.diag([1e16, 5., 7.])
t = core.tensorize([a, b])
assert abs(t[0][0] - 1) < 1e-9, t[0][0]
''')

mk('c05-project-types', 'C05', 'Varf / Series projection of a position whose directions have different types, on a direction other than the first',
   'the type of the projected direction is the one of the first directions',
   [('hermipy/position.py', 'types[rp] = self.types[rs]', 'types[rp] = self.types[rp]')],
   '''
import numpy as np, hermipy as hm
p = hm.Position(dim=2, types=["hermite", "fourier"])
s = hm.Series(np.arange(1., 7.), p)
assert s.project(1).position.types == ["fourier"]
''')

mk('c06-inner-break', 'C06', 'partial contraction on an index set whose listing is not ordered by total degree (cross, dimension of the shared directions >= 2)',
   'the summation over shared directions stops at the first multi-index that leaves the set instead of skipping it',
   [(CPP + 'inner.cpp', '''            if (!it_m1.has(m1) || !it_m2.has(m2))
                continue;
''', '''            if (!it_m1.has(m1) || !it_m2.has(m2))
                break;
''')],
   '''
import numpy as np, hermipy.core as core
def ref(s1, s2, d1, d2, n, S):
    L = lambda d: [tuple(m) for m in core.iterator_list_indices(d, n, index_set=S)]
    sh = [d for d in d1 if d in d2]; fr = sorted(set(d1) ^ set(d2))
    p1 = {m: i for i, m in enumerate(L(len(d1)))}; p2 = {m: i for i, m in enumerate(L(len(d2)))}
    out = []
    for m in L(len(fr)):
        t = 0
        for k in L(len(sh)):
            v = dict(zip(fr, m)); v.update(zip(sh, k))
            a, b = tuple(v[d] for d in d1), tuple(v[d] for d in d2)
            if a in p1 and b in p2:
                t += s1[p1[a]] * s2[p2[b]]
        out.append(t)
    return np.array(out)
for S in ("triangle", "cube", "cross", "rectangle", "cross_nc"):
    for d1, d2 in (([0, 1, 2], [1, 2]), ([0, 1, 2], [0, 2, 3]), ([0, 1], [1, 2])):
        n = 5
        s1 = np.arange(1., core.iterator_size(len(d1), n, index_set=S) + 1)
        s2 = np.arange(2., core.iterator_size(len(d2), n, index_set=S) + 2)
        r = core.inner(s1, s2, d1, d2, index_set=S)
        assert np.array_equal(r, ref(s1, s2, d1, d2, n, S)), (S, d1, d2)
''')

mk('c07-negative-weights', 'C07', 'a quadrature rule with negative weights',
   'nodes whose product weight is negative are skipped by the forward transform',
   [(CPP + 'transform.cpp', '''        for (j = 0, m.reset(); j < n_polys; j++, m.increment())
        {
            double val_at_point = 1;''', '''        // Nothing to add
        if (weight < 1e-200)
            continue;

        for (j = 0, m.reset(); j < n_polys; j++, m.increment())
        {
            double val_at_point = 1;''')],
   '''
import numpy as np, hermipy.core as core
nodes, w = [[-1., 0., 1.]], [[1., -1., 1.]]
r = core.transform(1, np.array([1., 2., 3.]), nodes, w, True)
assert np.allclose(r, [1 - 2 + 3, -1 + 3]), r
''')

mk('c08-flat-mixed', 'C08', 'flat integration of a non separable function over a mix of Fourier and Hermite directions',
   'the Gaussian density is normalised with the total dimension instead of the number of Hermite directions',
   [('hermipy/position.py', 'normalization = 1/(sym.sqrt((2*sym.pi)**len(ind) * la.det(sub_cov)))',
     'normalization = 1/(sym.sqrt((2*sym.pi)**self.dim * la.det(sub_cov)))')],
   '''
import numpy as np, hermipy as hm
q = hm.Quad.gauss_hermite(60, dirs=[0]) * hm.Quad.fourier(60, dirs=[1])
v = q.integrate('exp(-x*x)*(1 + cos(y))', flat=True, tensorize=False)
assert abs(v - np.sqrt(np.pi)*2*np.pi) < 1e-6, v
''')

mk('c10-variance-order', 'C10', 'a derivative matrix on a quadrature whose variances are not in increasing order, in one (non tensorized) piece',
   'the standard deviation used to scale a derivative is taken from the sorted variances',
   [('hermipy/quad.py', 'eigval, _ = la.eig(self.position.cov)', 'eigval, _ = la.eigh(self.position.cov)')],
   '''
import numpy as np, hermipy as hm
q = hm.Quad.gauss_hermite(10, dim=2, mean=[0, 0], cov=[[4., 0], [0, 1.]])
v = q.varfd(1, 2, [0], tensorize=False).matrix
assert abs(v[0][1] - .5) < 1e-10, v[0][1]
''')

mk('c10-repeated-directions', 'C10', 'a derivative matrix along the same direction at least three times',
   'the derivative is applied at most twice along a direction',
   [('hermipy/quad.py', "directions = filter(lambda d: d in self.position.dirs, directions)",
     "directions = [d for i, d in enumerate(directions)\n                      if d in self.position.dirs and d not in directions[i+2:]]")],
   '''
import numpy as np, hermipy as hm
q = hm.Quad.gauss_hermite(10)
v = q.varfd(1, 4, [0, 0, 0]).matrix
assert abs(v[0][3] - np.sqrt(6)) < 1e-10
assert abs(v[0][2]) < 1e-10
''')

mk('c11-product-sign', 'C11', 'product of sine and cosine with frequencies at distance two or more, the cosine faster',
   'the sign of the difference frequency is wrong for far away frequencies',
   [(CPP + 'varf.cpp', 'products[SIN(kd)][SIN(k2)][COS(k3)] =   M_PI / 2 * ((k2 > k3) - (k3 > k2)) / normalization;',
     'products[SIN(kd)][SIN(k2)][COS(k3)] =   M_PI / 2 * ((k2 + 1 > k3) - (k3 > k2 + 1)) / normalization;')],
   '''
import numpy as np, hermipy as hm
q = hm.Quad.fourier(40)
v = q.varf('sin(x)', 6)
for e in ('cos(2*x)', 'cos(3*x)', 'sin(2*x)', 'cos(x)', 'sin(x)'):
    assert v(q.transform(e, 6)) == q.transform('sin(x)*(' + e + ')', 6), e
''')

mk('c12-constant-direction', 'C12', 'projection of a function with a constant factor whose lowest direction is not 0',
   'the constant is only kept by projections that contain direction 0, so it is lost',
   [('hermipy/function.py', 'if self.dirs[0] in dirs:', 'if 0 in dirs:')],
   '''
import hermipy as hm
f = hm.Function('3*y*z', dirs=[1, 2])
g = f.project([1]).sym * f.project([2]).sym
assert (g - f.sym).expand() == 0, g
''')

mk('c12-finest-chain', 'C12', 'two partitions of five or more elements whose blocks overlap in a long chain',
   'the merge of overlapping blocks stops after one round, so the result is not coarser than both partitions',
   [('hermipy/lib.py', '''    while (any(s1.intersection(s) != set() for s1 in set1) or
           any(s2.intersection(s) != set() for s2 in set2)):
''', '''    for _ in range(2):
''')],
   '''
import itertools, hermipy.lib as lib
F = frozenset
def parts(s):
    s = list(s)
    if not s:
        yield []
        return
    for p in parts(s[1:]):
        yield [[s[0]]] + p
        for i in range(len(p)):
            yield p[:i] + [[s[0]] + p[i]] + p[i+1:]
a = {F({0}), F({1, 2}), F({3, 4}), F({5, 6}), F({7, 8})}
b = {F({0, 1}), F({2, 3}), F({4, 5}), F({6, 7}), F({8})}
assert lib.finest_common(a, b) == {F(range(9))}
a = {F({0}), F({1, 2}), F({3, 4})}
b = {F({0, 1}), F({2, 3}), F({4})}
assert lib.finest_common(a, b) == {F(range(5))}
for p in parts(range(5)):
    for q in parts(range(5)):
        P, Q = {F(x) for x in p}, {F(x) for x in q}
        R = lib.finest_common(P, Q)
        assert all(any(x <= r for r in R) for x in P | Q), (P, Q, R)
''')

mk('c13-order-five', 'C13', 'an operator of order five',
   'operators of order five are refused although the split supports them',
   [('hermipy/operator.py', "repeat=dim) if sum(m) <= MAX_ORDER)", "repeat=dim) if sum(m) < MAX_ORDER)")],
   '''
import sympy, hermipy as hm
x = sympy.symbols('x', real=True); f = sympy.Function('f')(x)
s = hm.Operator(2*f.diff(x, 5) + f).split()
assert s[(5,)].sym == 2 and s[(0,)].sym == 1
''')

mk('c14-order-degree', 'C14', 'an operator whose order exceeds the degree, on a set larger than the triangle (cube), dimension >= 2',
   'terms of order larger than the degree are skipped although they do not vanish on the cube',
   [('hermipy/quad.py', '''        for m, coeff in splitop.items():
            enum_dirs''', '''        for m, coeff in splitop.items():
            if sum(m) > degree + 1:
                coeff = coeff*0  # No polynomial has so many derivatives
            enum_dirs''')],
   '''
import sympy, numpy as np, hermipy as hm
x, y = sympy.symbols('x y', real=True); f = sympy.Function('f')(x, y)
q = hm.Quad.gauss_hermite(12, dim=2)
op = f.diff(x, 2, y, 2) + f
m = q.discretize_op(op, 2, index_set="cube")
u = q.transform('x**2*y**2', 2, index_set="cube")
assert m(u) == q.transform('4 + x**2*y**2', 2, index_set="cube")
op = f.diff(x, 3, y, 2) + f
m = q.discretize_op(op, 3, index_set="cube")
u = q.transform('x**3*y**2', 3, index_set="cube")
assert m(u) == q.transform('12 + x**3*y**2', 3, index_set="cube")
op = f.diff(x, 1, y, 1) + f.diff(x, 2, y, 2)
m = q.discretize_op(op, 1, index_set="cube")
u = q.transform('x*y', 1, index_set="cube")
assert m(u) == q.transform('1', 1, index_set="cube")
op = f.diff(x, 3, y, 2)
m = q.discretize_op(op, 3, index_set="cube")
u = q.transform('x**3*y**2', 3, index_set="cube")
assert m(u) == q.transform('12', 3, index_set="cube")
q3 = hm.Quad.gauss_hermite(6, dim=3)
z = sympy.symbols('z', real=True); g = sympy.Function('f')(x, y, z)
op = g.diff(x, 1, y, 2, z, 2)
m = q3.discretize_op(op, 2, index_set="cube")
u = q3.transform('x*y**2*z**2', 2, index_set="cube")
assert m(u) == q3.transform('4', 2, index_set="cube")
op = f.diff(x, 2, y, 2)
m = q.discretize_op(op, 2, index_set="cube")
u = q.transform('x**2*y**2', 2, index_set="cube")
assert m(u) == q.transform('4', 2, index_set="cube")
''')

mk('c15-flat-inplace', 'C15', 'integrate with the flat option of values given as an array which is used again afterwards',
   'the array of grid values of the caller is divided by the weight in place',
   [('hermipy/quad.py', 'function = function / w_grid', 'function /= w_grid')],
   '''
import numpy as np, hermipy as hm
q = hm.Quad.gauss_hermite(20, dim=2)
g = q.discretize('exp(-x*x-y*y)')
h = g.copy()
a = q.integrate(g, flat=True); b = q.integrate(g, flat=True)
assert np.array_equal(g, h) and a == b
''')

mk('c15-sparse-override', 'C15', 'global sparse setting on and a call with sparse=False',
   'a per-call sparse=False does not override the global setting in discretize_op',
   [('hermipy/quad.py', '''        splitop = op.split()
        sparse = hm.settings['sparse'] if sparse is None else sparse
''', '''        splitop = op.split()
        sparse = sparse or hm.settings['sparse']
''')],
   '''
import numpy as np, hermipy as hm, sympy
x = sympy.symbols('x', real=True); f = sympy.Function('f')(x)
q = hm.Quad.gauss_hermite(20)
hm.settings['sparse'] = True
assert isinstance(q.discretize_op(f.diff(x), 3, sparse=False).matrix, np.ndarray)
''')
