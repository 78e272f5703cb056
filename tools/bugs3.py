"""Third batch of planted bugs (development helper)."""
import sys
from mkbug import mk as _mk
CPP = 'cpp/src/hermite/'
IT = CPP + 'iterators.cpp'
ONLY = set(sys.argv[1:])


def mk(bid, *a, **k):
    if not ONLY or bid in ONLY:
        _mk(bid, *a, **k)


mk('c01-rectangle-odd', 'C01', 'the rectangle set in dimension 3 or more, degree 3 or more: a step away from an odd maximum',
   'only one following direction is tried when the maximum is odd, so the listing contains multi-indices that were listed before and misses others',
   [(IT, '    while (next < dim && max % factors[next] != 0)\n        next++;', '    if (max % factors[next] != 0)\n        next++;')],
   '''
import itertools, hermipy.core as core
for d in (3, 4):
    for n in (1, 2, 3, 5):
        l = [tuple(m) for m in core.iterator_list_indices(d, n, index_set="rectangle")]
        s = [m for m in itertools.product(range(n + 1), repeat=d) if all(2*a <= n for a in m[1:])]
        assert sorted(l) == sorted(s), (d, n)
''')

mk('c04-group-order', 'C04', 'three or more matrices whose direction groups interleave, so that the directions collected so far are not in increasing order',
   'the directions of the partial product are appended instead of merged, so that a third part is placed along the wrong directions',
   [(CPP + 'tensorize.cpp', '        tensorize_dirs(d_old, dirs[i+1], d, _a1, _a2);\n', '        d.insert(d.end(), dirs[i+1].begin(), dirs[i+1].end());\n')],
   '''
import numpy as np, hermipy.core as core
n = 2
m = [np.diag([1., 2., 3.]), np.diag([1., 5., 7.]), np.diag([1., 11., 13.])]
t = core.tensorize({frozenset({2}): m[2], frozenset({0}): m[0], frozenset({1}): m[1]})
L = core.iterator_list_indices(3, n)
for i, a in enumerate(L):
    assert abs(t[i][i] - np.prod([m[k][a[k]][a[k]] for k in range(3)])) < 1e-9, a
''')

mk('c07-eval-translation', 'C07', 'evaluating a series at the nodes of a quadrature with another mean, when the variance of the series is not 1',
   'the shift of the nodes is not scaled by the deviation of the series',
   [('hermipy/quad.py', 'translation = inv.dot(self.position.mean - series.position.mean)', 'translation = self.position.mean - series.position.mean')],
   '''
import numpy as np, hermipy as hm
q1 = hm.Quad.gauss_hermite(10, dim=1, mean=[1.], cov=[[4.]])
q2 = hm.Quad.gauss_hermite(10, dim=1, mean=[0.], cov=[[4.]])
s = q1.transform('x**3 - x', 5)
assert np.abs(q2.eval(s) - q2.discretize('x**3 - x')).max() < 1e-6
''')

mk('c07-recurrence-clip', 'C07', 'nodes far from the origin (beyond 8 standard deviations)',
   'basis functions are not evaluated at distant nodes but at the point 8 deviations away',
   [(CPP + 'transform.cpp', '            double x = nodes[i][j];\n', '            double x = do_fourier[i] ? nodes[i][j] : nodes[i][j] > 8 ? 8 : nodes[i][j];\n')],
   '''
import numpy as np, hermipy.core as core
r = core.transform(1, np.array([0., 1.]), np.array([[2., 9.]]), np.array([[1., 1.]]), False)
assert np.allclose(r, [2., 9.]), r
''')

mk('c08-dilation', 'C08', 'a covariance that is not diagonal and has different variances, so that its factor is not symmetric',
   'nodes are mapped by the transpose of the factor of the covariance',
   [(CPP + 'discretize.cpp', 'mapped_node[i] += dilation[i][j]*node[j];', 'mapped_node[i] += dilation[j][i]*node[j];')],
   '''
import numpy as np, hermipy as hm
q = hm.Quad.gauss_hermite(8, dim=2, mean=[0, 0], cov=[[2., .5], [.5, 1.]])
assert abs(q.integrate('x*x') - 2) < 1e-9
assert abs(q.integrate('x*y') - .5) < 1e-9
assert abs(q.integrate('y*y') - 1) < 1e-9
''')

mk('c09-threshold', 'C09', 'a function whose expansion has a norm above 1e6 next to terms of ordinary size, matrix computed as a whole',
   'terms below 1e-12 times the squared norm are dropped instead of 1e-12 times the norm',
   [(CPP + 'varf.cpp', '    norm = sqrt(norm);\n', '')],
   '''
import numpy as np, hermipy as hm
q = hm.Quad.gauss_hermite(8, dim=1)
v = q.varf('100000000*x**2 + 50*x', 2, tensorize=False).matrix
assert abs(v[0][1] - 50) < 1e-3, v[0][1]
''')

mk('c10-has-break', 'C10', 'a set whose listing is not ordered by total degree (cube, cross, rectangle), two dimensions',
   'the rest of a row is skipped after the first multi-index that leaves the set',
   [(CPP + 'varf.cpp', '                if (!m->has(int_m2))\n                    continue;\n', '                if (!m->has(int_m2))\n                    break;\n')],
   '''
import numpy as np, hermipy as hm
q = hm.Quad.gauss_hermite(10, dim=2)
for S in ("cube", "cross", "rectangle"):
    v = q.varfd('1', 4, [0], index_set=S)
    s = q.transform('x**2*y', 4, index_set=S)
    e = q.transform('2*x*y', 4, index_set=S)
    assert np.abs(v(s).coeffs - e.coeffs).max() < 1e-9, S
    w = q.varfd('x', 4, [0], index_set=S, tensorize=False)
    e = q.transform('2*x**2*y', 4, index_set=S)
    assert np.abs(w(s).coeffs - e.coeffs).max() < 1e-9, S
''')

mk('c11-bounds', 'C11', 'a Fourier quadrature built from bounds whose length is not 2 pi',
   'the centre of the period is put pi to the right of the left bound',
   [('hermipy/quad.py', 'mean[i] = left/2 + right/2', 'mean[i] = left + np.pi')],
   '''
import numpy as np, hermipy as hm
q = hm.Quad.fourier(16, bounds=[(0., 1.)])
x = q.mapped_nodes().ravel()
assert x.min() > -1e-9 and x.max() < 1 + 1e-9, (x.min(), x.max())
''')

mk('c12-constant-label', 'C12', 'projection of a function whose lowest direction is not 0',
   'the constant of the function is lost by every projection unless direction 0 is among the directions',
   [('hermipy/function.py', '        if self.dirs[0] in dirs:\n', '        if 0 in dirs:\n')],
   '''
import hermipy as hm
f = hm.Function('3*y*z', dirs=[1, 2])
assert f.project([1]).sym * f.project([2]).sym == f.sym
''')

mk('c13-map-order', 'C13', 'conjugation by a factor of an operator whose coefficients multiply the unknown inside a derivative',
   'the factor is divided out before the derivatives are carried out',
   [('hermipy/operator.py', '        sym = (sym.doit()/factor.sym).expand()\n', '        sym = (sym/factor.sym).expand().doit()\n')],
   '''
import sympy as sy, hermipy as hm
x = sy.symbols('x', real=True); f = sy.Function('f')(x)
o = hm.Operator((x*f).diff(x)).map('exp(-x**2)')
e = (x*f*sy.exp(-x**2)).diff(x)/sy.exp(-x**2)
assert sy.simplify(o.as_xyz().doit() - e.doit()) == 0
''')

mk('c16-size-one', 'C16', 'a cached function that returned an array with a single entry',
   'the second call returns a number where the first returned an array',
   [('hermipy/cache.py', '        if result.shape == ():\n', '        if result.size == 1:\n')],
   '''
import os, tempfile, numpy as np, hermipy as hm
from hermipy.cache import cache
hm.settings['cache'] = True; hm.settings['cachedir'] = tempfile.mkdtemp(dir='.')
@cache()
def f(a):
    return a + 1
a = np.array([[1.]])
r1, r2 = f(a), f(a)
assert isinstance(r2, np.ndarray) and r2.shape == (1, 1), r2
''')

mk('c16-csr-shape', 'C16', 'two sparse matrices with the same entries and different numbers of columns passed to the same cached function',
   'sparse arguments that differ only by trailing empty columns share an entry',
   [('hermipy/cache.py', 'new_args = [a.data, a.indices, a.indptr, a.shape]', 'new_args = [a.data, a.indices, a.indptr]')],
   '''
import tempfile, numpy as np, scipy.sparse as ss, hermipy as hm
from hermipy.cache import cache
hm.settings['cache'] = True; hm.settings['cachedir'] = tempfile.mkdtemp(dir='.')
@cache()
def f(a):
    return a.shape[1]
a = ss.csr_matrix(np.array([[1., 0.]])); b = ss.csr_matrix(np.array([[1., 0., 0.]]))
assert f(a) == 2 and f(b) == 3
''')

mk('c18-long-prefix', 'C18', 'two expressions of more than 400 characters in C that agree on the first 400',
   'the name of the compiled integrand is computed from the beginning of the expression, so a long expression is sampled as another one',
   [(CPP + 'discretize.cpp', '''    static std::atomic<unsigned> counter(0);
    string name = to_string(hash<string>()(function_body));
''', '''    static std::atomic<unsigned> counter(0);
    string name = to_string(hash<string>()(function_body.substr(0, 400)));
'''), (CPP + 'discretize.cpp', '''    intern_function(function_body);
    string name = to_string(hash<string>()(function_body));
''', '''    intern_function(function_body);
    string name = to_string(hash<string>()(function_body.substr(0, 400)));
''')],
   '''
import numpy as np, hermipy.core as core
base = ' + '.join('v[0]*%d' % (1000 + i) for i in range(60))
n, t, d = [np.array([1., 2.])], np.array([0.]), np.array([[1.]])
a = core.discretize(base + ' + 1', n, t, d)
b = core.discretize(base + ' + 5', n, t, d)
assert np.allclose(b - a, 4), (a, b)
''')

mk('c19-indptr-16', 'C19', 'a CSR matrix with more than 65535 stored entries',
   'row pointers wrap around at 65536',
   [('hermipy/core.py', "indptr.extend(mat.indptr.astype('uint32'))", "indptr.extend(mat.indptr.astype('uint16'))")],
   '''
import numpy as np, scipy.sparse as ss, hermipy.core as core
m = ss.csr_matrix(np.arange(1., 300*300 + 1).reshape(300, 300))
r = core.to_numpy(core.to_cpp(m))
assert abs(r - m).max() == 0 if (r - m).nnz else True
assert r.nnz == m.nnz, r.nnz
''')

mk('c19-csr-columns', 'C19', 'a sparse matrix with fewer columns than rows (or more)',
   'the number of columns of a converted sparse matrix is its number of rows',
   [('hermipy/core.py', 'shape = (sp_matrix.size1(), sp_matrix.size2())', 'shape = (sp_matrix.size1(), max(sp_matrix.size1(), sp_matrix.size2()))')],
   '''
import numpy as np, scipy.sparse as ss, hermipy.core as core
m = ss.csr_matrix(np.array([[1., 0], [0, 2.], [3., 0]]))
assert core.to_numpy(core.to_cpp(m)).shape == (3, 2)
''')

mk('c20-equal-weights', 'C20', 'two quadratures with the same nodes and different weights',
   'quadratures with different weights compare equal',
   [('hermipy/quad.py', '            and la.norm(self.weights - other.weights) < very_small', '            and self.weights.shape == other.weights.shape')],
   '''
import numpy as np, hermipy as hm
a = hm.Quad([[0., 1.]], [[.5, .5]]); b = hm.Quad([[0., 1.]], [[.25, .75]])
assert not a == b
''')

mk('c20-shared-variance', 'C20', 'a product of positions sharing a direction with the same mean and different variances',
   'the variance of a direction that disappears is not compared',
   [('hermipy/position.py', '''                if not p1.mean[i1] == p2.mean[i2] or \\
                   not p1.cov[i1][i1] == p2.cov[i2][i2]:
''', '''                if not p1.mean[i1] == p2.mean[i2] or \\
                   not p1.cov[i1][i2] == p2.cov[i2][i1]:
''')],
   '''
import hermipy as hm
a = hm.Position(dim=2, dirs=[0, 1], cov=[[1., 0], [0, 2.]])
b = hm.Position(dim=2, dirs=[1, 2], cov=[[3., 0], [0, 1.]])
try:
    a*b
except ValueError:
    pass
else:
    raise SystemExit("accepted")
''')

mk('c21-apply-set', 'C21', 'applying a matrix to a series of another index set with the same number of coefficients (cross and cross_nc)',
   'the index sets are not compared, and coefficients are multiplied in a different order',
   [('hermipy/varf.py', """           not self.index_set == series.index_set or \\
           not isinstance(series, hs.Series):
""", """           not isinstance(series, hs.Series):
""")],
   """
import numpy as np, hermipy as hm
p = hm.Position(dim=2)
n = hm.core.iterator_size(2, 3, index_set="cross")
v, s = hm.Varf(np.eye(n), p, index_set="cross"), hm.Series(np.ones(n), p, index_set="cross_nc")
try:
    v(s)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""")

mk('c21-cross-corner', 'C21', 'conversion of a triangle series to a cross set whose corner (n,1,..,1) is just outside the triangle',
   'the conversion is not refused, and the coefficient of the corner is read past the set or fails',
   [('hermipy/series.py', 'not degree + self.position.dim - 1 <= self.degree:', 'not degree <= self.degree:')],
   '''
import numpy as np, hermipy as hm
s = hm.Series(np.arange(1., 11.), hm.Position(dim=2))
try:
    s.to_cross(3)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
''')

mk('c22-rank-default', 'C22', 'the rank of a multi-index asked for a set other than triangle and cube',
   'an index set without a rank function is silently taken as the triangle',
   [('hermipy/core.py', """    if index_set not in cpp_func:
        raise ValueError("Unknown index set")
    return int(cpp_func[index_set](ind_vec))
""", """    return int(cpp_func.get(index_set, hm_cpp.triangle_index)(ind_vec))
""")],
   """
import numpy as np, hermipy.core as core
for s in ("cross", "square"):
    try:
        core.iterator_index([1, 2], index_set=s)
    except Exception:
        continue
    raise SystemExit("accepted")
""")

mk('c22-position-length', 'C22', 'a position given a mean and a covariance of different sizes (mean of length 1)',
   'inconsistent mean and covariance are accepted when the mean has one entry',
   [('hermipy/position.py', '           cov is not None and not self.dim == len(cov) or \\\n', '           cov is not None and self.dim > 1 and not self.dim == len(cov) or \\\n')],
   '''
import numpy as np, hermipy as hm
try:
    hm.Position(mean=[1.], cov=np.eye(2))
except Exception:
    pass
else:
    raise SystemExit("accepted")
''')

mk('c23-time', 'C23', 'a function called more than once',
   'the accumulated time of a function is the time of its last call',
   [('hermipy/stats.py', "stats[key]['Time'] += time_end - time_start", "stats[key]['Time'] = time_end - time_start")],
   '''
import time, hermipy.stats as st
@st.log_stats()
def f(t):
    time.sleep(t)
f(.2); f(.01)
assert st.stats['f-__main__']['Time'] > .2
''')

mk('c23-module', 'C23', 'two instrumented functions of the same name in different modules',
   'functions of the same name share their statistics',
   [('hermipy/stats.py', '''            key = function.__name__ + '-' + function.__module__
            if rc.settings['trails'] or force:
''', '''            key = function.__name__ + '-' + log_stats.__module__
            if rc.settings['trails'] or force:
''')],
   '''
import hermipy.stats as st
def f(): return 1
def g(): return 2
g.__name__ = 'f'; g.__module__ = 'other'
a, b = st.log_stats()(f), st.log_stats()(g)
a(); b(); b()
assert st.stats['f-__main__']['Calls'] == 1 and st.stats['f-other']['Calls'] == 2
''')

mk('c24-drift-transpose', 'C24', 'generalized Langevin with two auxiliary processes and a matrix that is not symmetric',
   'the auxiliary drift uses the transposed matrix: the operator is the generator of another dynamics',
   [('hermipy/equations.py', '            - (A*z_vec).dot(dfdz)\\\n', '            - (A.T*z_vec).dot(dfdz)\\\n')],
   '''
import sympy as sy, hermipy.equations as eq
G = eq.Generalized_Langevin
p = {'β': 1, 'λ1': 1, 'λ2': 2, 'A11': 1, 'A12': 3, 'A21': -3, 'A22': 2, 'Vx': G.x**2/2}
o = G.backward(p)
r = o.subs(G.f2, G.z).doit()
assert sy.expand(r - (-G.y - (G.z + 3*G.w))) == 0, r
''')

mk('c24-gaussian-norm', 'C24', 'solve_gaussian with three variables and a stationary density that couples x with z',
   'the determinant in the normalisation has a wrong sign in one product, so the density does not integrate to one',
   [('hermipy/equations.py', '            + sol_cxz*(sol_cxy*sol_cyz-sol_cy*sol_cxz)\n', '            - sol_cxz*(sol_cxy*sol_cyz-sol_cy*sol_cxz)\n')],
   '''
import sympy as sy, hermipy.equations as eq
E = eq.McKean_Vlasov_harmonic_noise
p = E.params()
p.update({'β': sy.Integer(1), 'γ': sy.Integer(0), 'ε': sy.Integer(1), 'θ': sy.Integer(0), 'm': sy.Integer(0), 'Vp': E.x**2/2})
o = E.equation(p)
s = eq.solve_gaussian(o, E.f, E.variables)
q = sy.expand(sy.log(s/s.subs({E.x: 0, E.y: 0, E.z: 0})).rewrite(sy.log))
v = E.variables
ex = [a for a in s.atoms(sy.exp)]
arg = sy.expand(sum(a.args[0] for a in ex))
H = -sy.hessian(arg, v)
n = s.subs({E.x: 0, E.y: 0, E.z: 0})
assert abs(float(n**2*(2*sy.pi)**3) - float(H.det())) < 1e-9
''')
