from mkbug import mk
IT = 'cpp/src/hermite/iterators.cpp'
mk('c01-rectangle-step', 'C01', 'rectangle set, dimension >= 2, degree >= 2',
   'the rectangle enumerator leaves the set / repeats elements because the weight multiplies the index before the increment',
   [(IT, 'if ((multi_index[i] + 1) * factors[i] < max + (i < ind))', 'if (multi_index[i] * factors[i] + 1 < max + (i < ind))')],
   '''
import hermipy.core as core
for d in (2, 3):
    for n in (3, 4, 5):
        L = [tuple(m) for m in core.iterator_list_indices(d, n, index_set="rectangle")]
        assert len(set(L)) == len(L), "repeated"
        assert all(m[0] <= n and all(2*x <= n for x in m[1:]) for m in L), "outside"
        assert len(L) == (n+1)*(n//2+1)**(d-1)
''')
mk('c02-varf-subdegree-set', 'C02', 'reducing the degree of a matrix on a set other than the triangle, dimension >= 2',
   'the size of the smaller space is computed for the triangle set',
   [('hermipy/varf.py', '''        n_polys = core.iterator_size(self.position.dim, degree,
                                     index_set=self.index_set)
        kwargs =''', '''        n_polys = core.iterator_size(self.position.dim, degree)
        kwargs =''')],
   '''
import numpy as np, hermipy as hm
n = 6*6
v = hm.Varf(np.arange(n*n, dtype=float).reshape(n, n), hm.Position(dim=2), index_set="cube")
w = v.subdegree(3)
assert w.matrix.shape == (16, 16), w.matrix.shape
''')
mk('c03-rank-rounding', 'C03', 'isolated multi-indices of large degree where the floating point binomial rounds below the integer',
   'rank of a multi-index in the triangle enumeration is off by one at isolated indices',
   [(IT, '''            result += (u_int) binomial_coefficient<double> (i + sum, i + 1);''',
     '''            // Product formula, cheaper than the general routine
            double binomial = 1;
            for (u_int k = 1; k <= i + 1; k++)
                binomial *= (double) (sum - 1 + k) / k;
            result += (u_int) binomial;''')],
   '''
import hermipy.core as core
for d, n in ((2, 60), (3, 40), (4, 20)):
    L = core.iterator_list_indices(d, n)
    for i, m in enumerate(L):
        assert core.iterator_index(m) == i, (m, i)
''')
