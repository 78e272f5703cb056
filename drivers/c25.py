"""C25: sessions of drawing on several figures."""
import itertools
import math
import random

from drivers.common import BAD, as_int, hermipy, in_set, ints, listing, rng

TRACE = 'T_Plots'
MC = [('MC_Plots', 'MC_Plots')]
ASSUMPTIONS = ['the drawing is read from the objects matplotlib holds (curves, bars, dots, lines) and from the arguments of its contour functions, not from pixels',
               'quadratures of one or two directions; bounding lines to a hundredth']
U = math.pi / 6         # unit of the abscissae of a Fourier figure


def cases(seed, tier, ctx):
    r = rng(seed, 'c25')
    out = []
    for _ in range(22 if tier == 'quick' else 260):
        out.append({'seed': r.randint(0, 10 ** 9), 'len': 9})
    return out


def setup():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.axes
    import numpy as np
    A = matplotlib.axes.Axes

    def wrap(name, into):
        old = getattr(A, name)

        def f(self, *args, **kw):
            r = old(self, *args, **kw)
            pos = [a for a in args if np.ndim(a) > 0]
            if len(pos) >= 3:
                x, y, z = [np.array(v, dtype=float) for v in pos[:3]]
                x = x[0] if x.ndim == 2 else x
                y = y[:, 0] if y.ndim == 2 else y
                self.__dict__.setdefault('_v_' + into, []).append((x, y, z))
            else:
                self.__dict__.setdefault('_v_' + into, []).append(None)
            self.__dict__.setdefault('_v_own', []).extend(id(c) for c in r.collections)
            self.__dict__.setdefault('_v_keep', []).append(r)
            return r
        setattr(A, name, f)
    wrap('contourf', 'maps')
    wrap('contour', 'lines')
    import matplotlib.pyplot as plt
    shown = []
    plt.show = lambda *a, **k: shown.append(plt.gcf())
    setup.shown = shown


def z2(v):
    return [v.real, v.imag]


def raw(args):
    """the operands, as integers"""
    import numpy as np
    import scipy.sparse as ss
    o = []
    for a in args:
        if ss.issparse(a):
            a = a.toarray()
        a = np.asarray(a)
        for v in a.ravel():
            v = complex(v)
            o += [as_int(round(v.real * 1000)), as_int(round(v.imag * 1000))]
    return o


def look(ax, unit, sc=1.):
    """what the figure shows; sc[k] multiplies the ordinates of curve k"""
    import numpy as np
    o = {'curves': [], 'maps': [], 'lines': [], 'bars': [], 'dots': [], 'vs': [], 'hs': []}
    scs = ax.__dict__.setdefault('_v_sc', {'c': {}, 'm': {}, 'l': {}, 'd': {}})
    for ln in ax.lines:
        x, y = [np.asarray(v, dtype=float) for v in ln.get_data()]
        if len(x) == 2 and x[0] == x[1]:
            o['vs'].append(as_int(round(float(x[0]) * 100)))
        elif len(y) == 2 and y[0] == y[1]:
            o['hs'].append(as_int(round(float(y[0]) * 100)))
        else:
            s = scs['c'].setdefault(len(o['curves']), sc)
            o['curves'].append([[as_int(a / unit), as_int(b * s)] for a, b in zip(x, y)])
    for what in ('maps', 'lines'):
        for m in ax.__dict__.get('_v_' + what, []):
            if m is None:
                o[what].append(BAD)
                continue
            s = scs[what[0]].setdefault(len(o[what]), sc)
            o[what].append({'x': ints(m[0] / unit), 'y': ints(m[1] / unit), 'z': [ints(r * s) for r in m[2]]})
    for b in ax.patches:
        o['bars'].append([as_int(b.get_x() + b.get_width() / 2), as_int(b.get_y() + b.get_height())])
    own = set(ax.__dict__.get('_v_own', []))
    for c in ax.collections:
        if id(c) in own:
            continue
        v = c.get_array()
        off = c.get_offsets()
        if v is None or len(v) != len(off):
            o['dots'].append([[BAD, BAD, BAD]])
        else:
            s = scs['d'].setdefault(len(o['dots']), sc)
            o['dots'].append([[as_int(p[0]), as_int(p[1]), as_int(x * s)] for p, x in
                              zip(np.asarray(off), np.asarray(v)) if abs(x) > 1e-9])
    o['title'] = ax.get_title().replace('-0.000', '0.000')
    return o


def poly(rr, D, deg=2):
    ts = []
    for _ in range(rr.randint(1, 3)):
        ts.append({'c': rr.choice([-3, -2, -1, 1, 2, 3]), 'e': [rr.randint(0, deg) for _ in range(D)],
                   's': [rr.choice([0, 0, 0, 1]) for _ in range(D)]})
    return ts


def symp(ts, dirs):
    import sympy
    xyz = hermipy().Function.xyz
    return sum((t['c'] * sympy.prod([xyz[d] ** k * sympy.cos(sympy.pi * xyz[d]) ** c for d, k, c in zip(dirs, t['e'], t['s'])]) for t in ts), sympy.Integer(0))


def run(case):
    import matplotlib.pyplot as plt
    import numpy as np
    import scipy.sparse as ss
    hm = hermipy()
    rr = random.Random(case['seed'])
    plt.close('all')
    tr = []
    figs = []          # (axes, unit), in the order of the specification
    mine = []          # figures of the session

    def figure(unit):
        have = [i for i in mine if figs[i][1] == unit]
        if have and rr.random() < .7:
            return rr.choice(have)
        ax = plt.subplots(1)[1]
        figs.append((ax, unit))
        mine.append(len(figs) - 1)
        return len(figs) - 1

    def quadrature(D, four=False, factor=1):
        dirs = sorted(rr.sample(range(5), D))
        if four:
            n = rr.choice([3, 4, 6])
            mu, sg = [rr.randint(-2, 2) for _ in dirs], [rr.choice([1, 1, 2, 3]) for _ in dirs]
            q = hm.Quad.fourier(n, dirs=dirs, bounds=[(math.pi * (m - s), math.pi * (m + s)) for m, s in zip(mu, sg)])
            nodes = [[-6 + 12 * k // n for k in range(n)]] * D
            return q, dirs, {'nodes': nodes, 'mean': [6 * m for m in mu], 'sd': sg}
        n = rr.randint(3, 5)
        nodes = [sorted(rr.sample(range(-3, 4), n)) for _ in dirs]
        mu, sg = [rr.randint(-2, 2) for _ in dirs], [rr.choice([1, 1, 2, 3]) for _ in dirs]
        pos = hm.Position(dim=D, dirs=dirs, mean=[float(m) for m in mu], cov=np.diag([float(s * s) for s in sg]))
        q = hm.Quad(np.array(nodes, dtype=float), np.ones((D, n)), position=pos, factor=factor)
        return q, dirs, {'nodes': nodes, 'mean': mu, 'sd': sg}

    def series(D, dirs, qd, nest=True, fac=False):
        kind = rr.choice(['triangle', 'triangle', 'cube', 'cross', 'rectangle'] if D > 1 else ['triangle', 'cube'])
        deg = rr.choice([2, 4]) if kind == 'rectangle' else rr.randint(1, 4 if D == 1 else 3)
        lst = listing(kind, D, deg)
        ks = [rr.choice([0, 1, -1, 2, -2, 3]) for _ in lst]
        # a position of its own: the deviation divides that of the quadrature, the difference of means too
        sd = [rr.choice([d for d in (1, 2, 3) if s % d == 0]) for s in qd['sd']]
        mean = [m + rr.randint(-1, 1) * d for m, d in zip(qd['mean'], sd)]
        cs = np.array([k * math.sqrt(math.prod(math.factorial(x) for x in m)) for k, m in zip(ks, lst)])
        if rr.random() < .3:
            cs = cs + 1j * np.array([rr.randint(-2, 2) for _ in lst])
        pos = hm.Position(dim=D, dirs=dirs, mean=[float(m) for m in mean], cov=np.diag([float(s * s) for s in sd]))
        f, fs = 1, []
        if fac and rr.random() < .3:
            t = poly(rr, D, 1)
            f, fs = symp(t, dirs), [{'k': 'poly', 'terms': t}]
        s = hm.Series(cs, pos, index_set=kind, factor=f)
        return s, {'k': 'series', 'kind': kind, 'deg': deg, 'list': lst, 'coeffs': ks, 'mean': mean, 'sd': sd}, fs

    def operand(D, q, dirs, qd, what=None):
        """(argument, its description, factors it brings, arrays it holds)"""
        what = what or rr.choice(['expr', 'fun', 'vals', 'series', 'series'])
        if what in ('expr', 'fun'):
            t = poly(rr, D)
            e = symp(t, dirs)
            return (hm.Function(e, dirs=dirs) if what == 'fun' else e), {'k': 'poly', 'terms': t}, [], []
        if what == 'vals':
            v = np.array([float(rr.randint(-9, 9)) for _ in itertools.product(*qd['nodes'])])
            return v, {'k': 'vals', 'vals': ints(v)}, [], [v]
        s, d, fs = series(D, dirs, qd, fac=True)
        return s, d, fs, [s.coeffs, s.position.mean, s.position.cov]

    def factor(D, qd, dirs):
        if rr.random() < .5:
            t = poly(rr, D, 1)
            return symp(t, dirs), [{'k': 'poly', 'terms': t}], []
        v = np.array([float(rr.randint(-3, 3)) for _ in itertools.product(*qd['nodes'])])
        return v, [{'k': 'vals', 'vals': ints(v)}], [v]

    def call(ev, unit, arrays, fn, sc=1.):
        own = rr.random() < .25
        del setup.shown[:]
        before = raw(arrays)
        i = None if own else figure(unit)
        ax = None if own else figs[i][0]
        raised, ret = 0, None
        try:
            ret = fn(ax)
        except Exception:
            raised = 1
            if ev['op'] != 'refused':
                raise
        if own:
            if raised:
                ax = plt.subplots(1)[1]
            else:
                ax = (setup.shown[0] if setup.shown else plt.gcf()).axes[0]
            figs.append((ax, unit))
            i = len(figs) - 1
        ev.update({'own': int(own), 'shown': len(setup.shown), 'returned': int(ret is not None), 'raised': raised, 'fig': i + 1,
                   'before': before, 'after': raw(arrays), 'o': look(ax, unit, sc)})
        tr.append(ev)

    def title(kw):
        t = rr.choice(['', '', '', 'T1', 'another title'])
        if t:
            kw['title'] = t
        return t

    def contours(D, kw):
        c = rr.choice([0, 0, 3, 7])
        if c and D == 2:
            kw['contours'] = c
            return c
        return 0

    for _ in range(case['len']):
        k = rr.choice(['plot', 'plot', 'plot', 'plot', 'hf', 'hf', 'stream', 'stream', 'coeffs', 'coeffs', 'matrix', 'matrix', 'four', 'refused'])
        D = rr.choice([1, 2, 2])
        if k in ('plot', 'four'):
            q, dirs, qd = quadrature(D, k == 'four')
            a, ad, fs, arrays = operand(D, q, dirs, qd, 'vals' if k == 'four' else None)
            kw = {}
            if ad['k'] == 'series':
                if rr.random() < .5:
                    kw['bounds'] = True
                if rr.random() < .4:
                    kw['factor'], f2, a2 = factor(D, qd, dirs)
                    fs, arrays = fs + f2, arrays + a2
            ev = {'op': 'plot', 'q': qd, 'a': ad, 'f': fs, 'title': title(kw), 'contours': contours(D, kw), 'bounds': int('bounds' in kw)}
            call(ev, U if k == 'four' else 1., arrays + [q.nodes, q.weights], lambda ax: q.plot(a, ax=ax, **kw))
        elif k == 'hf':
            t = poly(rr, D, 1)[:1] if rr.random() < .3 else None
            q, dirs, qd = quadrature(D)
            if t:
                q = hm.Quad(q.nodes, q.weights, position=q.position, factor=symp(t, dirs))
            m = [rr.randint(0, 4) for _ in dirs]
            kw = {}
            tt = title(kw)
            if max(m) > 1 and not tt:
                tt = kw['title'] = 'basis'
            ev = {'op': 'hf', 'q': qd, 'm': m, 'f': [{'k': 'poly', 'terms': t}] if t else [], 'title': tt, 'contours': contours(D, kw), 'bounds': 1}
            if rr.random() < .4:
                ev['bounds'], kw['bounds'] = 0, False
            mi = rr.choice([list, tuple])(m)
            call(ev, 1., [q.nodes, q.weights, mi], lambda ax: q.plot_hf(mi, ax=ax, **kw),
                 math.sqrt(math.prod(math.factorial(x) for x in m)))
        elif k == 'stream':
            q, dirs, qd = quadrature(2)
            what = rr.choice(['expr', 'fun', 'series'])
            if what == 'series':
                while True:
                    (a, ad, fs, ar1), (b, bd, fs2, ar2) = [operand(2, q, dirs, qd, what) for _ in range(2)]
                    if not fs and not fs2 and not np.iscomplexobj(a.coeffs) and not np.iscomplexobj(b.coeffs):
                        break
            else:
                (a, ad, fs, ar1), (b, bd, fs2, ar2) = [operand(2, q, dirs, qd, what) for _ in range(2)]
            kw, arrays = {}, ar1 + ar2
            if what == 'series' and rr.random() < .5:
                kw['factor'], fs, a2 = factor(2, qd, dirs)
                arrays = arrays + a2
            ev = {'op': 'stream', 'q': qd, 'a': ad, 'b': bd, 'f': fs}
            call(ev, 1., arrays + [q.nodes, q.weights], lambda ax: q.streamlines(a, b, ax=ax, **kw))
        elif k == 'coeffs':
            dirs = sorted(rr.sample(range(5), D))
            kind = rr.choice(['triangle', 'cube', 'cross', 'rectangle'] if D > 1 else ['triangle', 'cube'])
            deg = rr.choice([2, 4, 6]) if kind == 'rectangle' else rr.randint(1, 5)
            lst = listing(kind, D, deg)
            vals = [rr.choice([1, 2, 3, 5, 7]) * rr.choice([-1, 1]) for _ in lst]
            s = hm.Series(np.array(vals, dtype=float), hm.Position(dim=D, dirs=dirs), index_set=kind)
            kw = {}
            ev = {'op': 'coeffs', 'kind': kind, 'deg': deg, 'list': lst, 'vals': vals, 'title': title(kw)}
            call(ev, 1., [s.coeffs], lambda ax: s.plot(ax=ax, **kw))
        elif k == 'matrix':
            dirs = sorted(rr.sample(range(5), D))
            kind = rr.choice(['triangle', 'cube'])
            deg = rr.randint(1, 6 if D == 1 else 3)
            n = len(listing(kind, D, deg))
            M = np.array([[float(rr.choice([0, 0, 0, 1, -1, 2, -3, 4])) for _ in range(n)] for _ in range(n)])
            M[rr.randrange(n), rr.randrange(n)] = rr.choice([-5., 5.])
            N = M.copy()
            # entries of any size
            sc = 2. ** rr.choice([0, 0, 24, -30])
            M = M / sc
            if rr.random() < .5:
                M = ss.csr_matrix(M)
            else:
                M = M + np.where(M == 0, 1e-13, 0.)
            v = hm.Varf(M, hm.Position(dim=D, dirs=dirs), index_set=kind)
            ln = rr.random() < .7
            kw = {} if ln and rr.random() < .5 else {'lines': ln}
            ev = {'op': 'matrix', 'kind': kind, 'dim': D, 'deg': deg, 'm': [ints(x) for x in N], 'lines': int(ln)}
            call(ev, 1., [v.matrix], lambda ax: v.plot(ax=ax, **kw), sc)
        else:
            w = rr.choice(['fun', 'type', 'hf', 'stype', 'sfun', 'diag', 'sdim'])
            q, dirs, qd = quadrature(2)
            x = symp(poly(rr, 2), dirs)
            ser = series(2, dirs, qd)[0]
            arr = np.ones(len(qd['nodes'][0]) ** 2)
            fn = {'fun': lambda ax: q.plot(hm.Function(x, dirs=dirs), factor=arr, ax=ax),
                  'type': lambda ax: q.plot('x', ax=ax),
                  'hf': lambda ax: q.plot_hf(rr.choice([[1], [1, 2, 0]]), ax=ax),
                  'stype': lambda ax: q.streamlines(*rr.choice([(x, ser), (ser, hm.Function(x, dirs=dirs))]), ax=ax),
                  'sfun': lambda ax: q.streamlines(x, x, factor=arr, ax=ax)}.get(w)
            if w == 'diag':
                p = hm.Position(dim=2, dirs=dirs, mean=[0., 0.], cov=[[2., .5], [.5, 2.]])
                qq = hm.Quad(q.nodes, q.weights, position=p)
                fn = lambda ax: rr.choice([lambda: qq.plot(x, ax=ax), lambda: qq.streamlines(x, x, ax=ax)])()
            elif w == 'sdim':
                q1 = quadrature(1)[0]
                y = hm.Function.xyz[q1.position.dirs[0]]
                fn = lambda ax: q1.streamlines(y, y, ax=ax)
            call({'op': 'refused'}, 1., [q.nodes, q.weights, arr], fn)
    for i in mine:
        tr.append({'op': 'still', 'fig': i + 1, 'o': look(*figs[i])})
    plt.close('all')
    return tr
