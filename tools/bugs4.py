"""Fourth batch of planted bugs (development helper)."""
import sys
from mkbug import mk as _mk
CPP = 'cpp/src/hermite/'
ONLY = set(sys.argv[1:])


def mk(bid, *a, **k):
    if not ONLY or bid in ONLY:
        _mk(bid, *a, **k)


mk('c08-small-deviation', 'C08', 'a direction whose standard deviation is below 1e-6',
   'small entries of the factor of the covariance are taken to be rounding noise, so that all the nodes collapse to the mean',
   [(CPP + 'discretize.cpp', '            mapped_node[i] += dilation[i][j]*node[j];',
     '            if (dilation[i][j] > 1e-6 || dilation[i][j] < -1e-6)\n                mapped_node[i] += dilation[i][j]*node[j];')],
   '''
import numpy as np, hermipy as hm
q = hm.Quad.gauss_hermite(5, dim=2, mean=[0., 1.], cov=[[1e-16, 0.], [0., 1.]])
x = q.mapped_nodes()[:, 0]
assert abs(x.max() - 1e-8*max(q.nodes[0])) < 1e-12, x.max()
''')

mk('c15-setting-left', 'C15', 'integrating a series, and any later call in the same process',
   'the execution setting is switched off for good',
   [('hermipy/quad.py', '                if isinstance(args[arg_num], hm.Series):\n                    do_tensorize = False',
     "                if isinstance(args[arg_num], hm.Series):\n                    hm.settings['tensorize'] = do_tensorize = False")],
   '''
import hermipy as hm
q = hm.Quad.gauss_hermite(6, dim=2)
s = q.transform('x*y + 1', 2)
q.integrate(s)
assert hm.settings['tensorize'] is True
''')

mk('c25-uniform-step', 'C25', 'streamlines on a grid whose nodes are not equally spaced',
   'the stream function is integrated along the first row with the first spacing instead of each of them',
   [('hermipy/quad.py', 'psi[0, jx] = psi[0, jx-1] - fy[0, jx] * (x[jx] - x[jx-1])', 'psi[0, jx] = psi[0, jx-1] - fy[0, jx] * (x[1] - x[0])')],
   '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.axes, matplotlib.pyplot as plt, numpy as np, hermipy as hm
seen = []
A = matplotlib.axes.Axes
for n in ('contour', 'contourf'):
    def f(self, *a, _old=getattr(A, n), **k):
        seen.append([np.array(v) for v in a if np.ndim(v) > 0])
        return _old(self, *a, **k)
    setattr(A, n, f)
q = hm.Quad.gauss_hermite(7, dim=2)
# the flow (0, 1) has the stream function -x, up to a constant
q.streamlines(hm.Function('0', dirs=[0, 1]), hm.Function('1', dirs=[0, 1]), ax=plt.subplots(1)[1])
ok = False
for a in seen:
    if len(a) < 3 or a[2].ndim != 2:
        continue
    x = a[0][0] if a[0].ndim == 2 else a[0]
    ok = ok or all(np.abs(row + x - (row + x)[0]).max() < 1e-9 for row in a[2])
assert ok and seen
''')
