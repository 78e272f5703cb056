"""C21: programs over registers of series and matrices."""
import math
import random

from drivers import tens
from drivers.common import KINDS, hermipy, as_int, ints, listing, raises, rng

TRACE = 'T_Algebra'
MC = [('MC_Algebra', 'MC_Algebra')]
MC_THOROUGH = [('MC_Algebra', 'MC_Algebra4')]
ASSUMPTIONS = ['factors are products of exponentials, written the same way (the library compares expressions)',
               'matrices that are solved are well conditioned; a removed vector spans the kernel',
               'the factor of a series a matrix is applied to is not compared by the library']
BIG = 200000


def cases(seed, tier, ctx):
    r = rng(seed, 'c21')
    out = []
    q = tier == 'quick'
    for i in range(220 if q else 1200):
        out.append({'t': 'prog', 'seed': r.randint(0, 10 ** 9), 'kind': KINDS[i % 5], 'len': 22})
    for _ in range(50 if q else 300):
        out.append({'t': 'solve', 'seed': r.randint(0, 10 ** 9)})
        out.append({'t': 'fun', 'seed': r.randint(0, 10 ** 9)})
    return out


def get_fac(hm, f, dirs):
    import sympy
    s, fac = f.sym, []
    xs = [hm.Function.x_sub[d] for d in dirs]
    for x in xs:
        g = sympy.simplify(-sympy.diff(s, x) / s)
        fac.append(as_int(g) if g.is_number else 2000000001)
    one = sympy.simplify(s.subs({x: 0 for x in xs}))
    ok = one == 1 and not (s.free_symbols - set(xs)) and list(f.dirs) == list(dirs)
    return fac if ok else [2000000001]


def observe(hm, x, N=1):
    import numpy as np
    p = x.position
    dirs = [int(d) for d in p.dirs]
    o = {'dirs': dirs, 'mean': ints(p.mean), 'var': [as_int(p.cov[i][i]) for i in range(len(dirs))],
         'types': [int(t == 'fourier') for t in p.types], 'kind': str(x.index_set), 'deg': int(x.degree),
         'fac': get_fac(hm, x.factor, dirs) if dirs else []}
    o['list'] = [[int(v) for v in m] for m in x.multi_indices()] if dirs else [[]]
    if isinstance(x, hm.Series):
        o['k'] = 0
        o['c'] = ints(np.asarray(x.coeffs) * N) if np.asarray(x.coeffs).ndim == 1 else [2000000001]
    else:
        o['k'] = 1
        o['c'] = tens.dense(x.matrix)
    return o


def size(x):
    import numpy as np
    import scipy.sparse as ss
    m = x.coeffs if hasattr(x, 'coeffs') else x.matrix
    m = m.toarray() if ss.issparse(m) else np.asarray(m)
    return float(np.abs(m).max()) if m.size else 0.


class Prog:
    def __init__(self, hm, rr):
        self.hm, self.rr, self.tr, self.regs = hm, rr, [], []
        self.data = {d: (rr.randint(-2, 2), rr.randint(1, 4), 0) for d in range(5)}
        self.fac = {d: rr.choice([0, 0, 1, 2]) for d in range(5)}

    def new(self, k, dirs, kind, deg, at=None, fac=None, vals=None, sparse=None):
        import numpy as np
        import scipy.sparse as ss
        import sympy
        hm, rr = self.hm, self.rr
        at = at or [self.data[d] for d in dirs]
        fac = fac or [self.fac[d] for d in dirs]
        lst = listing(kind, len(dirs), deg)
        n = len(lst)
        pos = hm.Position(mean=[float(a[0]) for a in at], cov=np.diag([float(a[1]) for a in at]), dirs=list(dirs),
                          types=[['hermite', 'fourier'][a[2]] for a in at])
        f = sympy.Integer(1)
        for d, a in zip(dirs, fac):
            f *= sympy.exp(-a * hm.Function.xyz[d])
        kw = {'factor': hm.Function(f, dirs=list(dirs)) if rr.random() < .5 else f}
        if kind != 'triangle' or rr.random() < .5:
            kw['index_set'] = kind
        if not any(fac) and rr.random() < .5:
            del kw['factor']
        if k == 0:
            c = vals or tens.entries(rr, n, .2)
            x = hm.Series(np.array(c, dtype=float), pos, **kw)
            if rr.random() < .3:
                q = hm.Quad([[0.]] * len(dirs), [[1.]] * len(dirs), position=pos, factor=kw.get('factor', 1))
                x = q.series(np.array(c, dtype=float), index_set=kind)
        else:
            c = vals or tens.matrix(rr, n, rr.choice([.3, .8]))
            sparse = rr.random() < .4 if sparse is None else sparse
            m = np.array(c, dtype=float)
            x = hm.Varf(ss.csr_matrix(m) if sparse else m, pos, **kw)
        g = {'k': k, 'dirs': list(dirs), 'mean': [a[0] for a in at], 'var': [a[1] for a in at], 'types': [a[2] for a in at],
             'kind': kind, 'deg': deg, 'fac': fac, 'list': lst, 'c': c}
        self.tr.append({'op': 'new', 'g': g, 'o': observe(hm, x)})
        self.regs.append(x)
        return x

    def ev(self, e, f, keep=True):
        """run f, record it; the result becomes a register"""
        try:
            res = f()
        except Exception:
            self.tr.append(dict(e, raised=1))
            return None
        if not isinstance(res, (self.hm.Series, self.hm.Varf)):
            o = {'k': 9, 'dirs': [], 'mean': [], 'var': [], 'types': [], 'kind': 'x', 'deg': 0, 'fac': [], 'list': [], 'c': []}
            self.tr.append(dict(e, raised=0, o=o))
            return None
        self.tr.append(dict(e, raised=0, o=observe(self.hm, res)))
        if keep:
            self.regs.append(res)
        return res

    def pick(self, f=lambda x: True, big=BIG):
        ok = [i for i, x in enumerate(self.regs) if f(x) and size(x) < big]
        return self.rr.choice(ok) if ok else None

    def end(self):
        for i, x in enumerate(self.regs):
            self.tr.append({'op': 'again', 'a': i + 1, 'o': observe(self.hm, x)})
        return self.tr


def r_prog(hm, case):
    import numpy as np
    rr = random.Random(case['seed'])
    P = Prog(hm, rr)
    S, V = hm.Series, hm.Varf
    kind = case['kind']
    cap = 14
    dmax = 3 if kind in ('triangle', 'cross', 'cube') else 2
    deg = max(1, min(tens.max_deg(kind, dmax, cap + 6), 4))
    if kind == 'rectangle':
        deg = rr.choice([2, 3])
    if kind == 'triangle':
        deg = rr.choice([2, 3])
    isS, isV = (lambda x: isinstance(x, S)), (lambda x: isinstance(x, V))
    pool = sorted(rr.sample(range(5), 3))

    def rspace():
        return sorted(rr.sample(pool, rr.choice([1, 1, 2, 2, 3]) if dmax == 3 else rr.choice([1, 1, 2])))

    def scalar(v):
        return rr.choice([int, float, np.float64])(v)

    for _ in range(2):
        P.new(0, rspace(), kind, deg)
        P.new(1, rspace(), kind, deg)
    for _ in range(case['len']):
        k = rr.choice(['new', 'newv', 'like', 'like', 'add', 'add', 'add', 'scale', 'div', 'apply', 'apply', 'apply', 'mul', 'mul', 'mul', 'cross', 'sub', 'proj', 'eq', 'wrong'])
        if k in ('new', 'newv'):
            P.new(int(k == 'newv'), rspace(), kind, deg)
        elif k == 'like':
            # the space of another register, or one that differs in one place
            x = P.regs[P.pick(lambda x: x.position.dim > 0)]
            ds = [int(d) for d in x.position.dirs]
            at = [[as_int(x.position.mean[i]), as_int(x.position.cov[i][i]), int(x.position.types[i] == 'fourier')] for i in range(len(ds))]
            fac = get_fac(hm, x.factor, ds)
            kd, dg = x.index_set, x.degree
            i = rr.randrange(len(ds))
            w = rr.choice([0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 7, 8])
            if w == 1:
                at[i][0] += 1
            elif w == 2:
                at[i][1] += 1
            elif w == 3:
                at[i][2] = 1 - at[i][2]
            elif w == 4:
                fac[i] += 1
            elif w == 5:
                kd = rr.choice([q for q in KINDS if q != kd])
                if tens.count(kd, len(ds), dg) > 40:
                    continue
            elif w == 6:
                dg = dg + 1 if tens.count(kd, len(ds), dg + 1) <= 36 else dg - 1
                if dg < 1:
                    continue
            elif w == 7:
                if kd in ('cross', 'cross_nc') or dg == 0:
                    continue
                dg = 0
            elif w == 8:
                ds[i] = rr.choice([d for d in range(5) if d not in ds] or [ds[i]])
                o = sorted(range(len(ds)), key=lambda j: ds[j])
                ds, at, fac = [ds[j] for j in o], [at[j] for j in o], [fac[j] for j in o]
            kk, vals = rr.choice([0, 1, int(isV(x))]), None
            if kk == int(isV(x)) and rr.random() < .6 and size(x) < BIG:
                # the same entries, in a space that differs in one place (or not)
                ob = observe(hm, x)
                if ob['list'] == listing(kd, len(ds), dg):
                    vals = ob['c']
            P.new(kk, ds, kd, dg, at=at, fac=fac, vals=vals)
            y = P.regs[-1]
            a, b = next(j for j, z in enumerate(P.regs) if z is x) + 1, len(P.regs)
            if rr.random() < .5:
                a, b, x, y = b, a, y, x
            if isS(x) != isS(y):
                if isS(x):
                    a, b, x, y = b, a, y, x
                if w in (4, 3):
                    continue
                P.ev({'op': 'apply', 'a': a, 'b': b}, lambda: x(y))
                if rr.random() < .4 and w:
                    P.ev({'op': 'solve', 'a': a, 'b': b, 'N': 1, 'w': 0}, lambda: x.solve(y), keep=False) if w not in (0,) else None
            else:
                sg = rr.choice([1, -1])
                P.ev({'op': 'add', 'a': a, 'b': b, 's': sg}, lambda: x + y if sg == 1 else x - y)
                P.tr.append({'op': 'eq', 'a': a, 'b': b, 'res': int(bool(x == y)), 'ne': int(bool(x != y))})
        elif k == 'add':
            a = P.pick()
            b = P.pick(lambda y: isS(y) == isS(P.regs[a]) and (rr.random() < .2 or y.position == P.regs[a].position and y.index_set == P.regs[a].index_set and y.degree == P.regs[a].degree))
            if b is None:
                continue
            x, y = P.regs[a], P.regs[b]
            sg = rr.choice([1, -1])
            P.ev({'op': 'add', 'a': a + 1, 'b': b + 1, 's': sg}, lambda: x + y if sg == 1 else x - y)
        elif k == 'scale':
            a = P.pick(big=BIG // 10)
            if a is None:
                continue
            x = P.regs[a]
            s = rr.choice([-3, -1, 0, 2, 5])
            sc = scalar(s)
            f = rr.choice([lambda: x * sc, lambda: sc * x])
            if rr.random() < .25:
                s, f = -1, lambda: -x
            P.ev({'op': 'scale', 'a': a + 1, 's': s}, f)
        elif k == 'div':
            a = P.pick(isS)
            s = rr.choice([2, -3, 7])
            x, sc = P.regs[a], scalar(s)
            try:
                y = x / sc
                P.tr.append({'op': 'div', 'a': a + 1, 'raised': 0, 'o': observe(hm, y, s)})
            except Exception:
                P.tr.append({'op': 'div', 'a': a + 1, 'raised': 1})
        elif k == 'apply':
            a = P.pick(isV, 3000)
            if a is None:
                continue
            x = P.regs[a]
            b = P.pick(lambda y: isS(y) and (rr.random() < .1 or list(y.position.dirs) == list(x.position.dirs)), 3000)
            if b is None:
                if len(x.multi_indices()) > 40:
                    continue
                P.new(0, list(x.position.dirs), x.index_set, x.degree)
                b = len(P.regs) - 1
            y = P.regs[b]
            P.ev({'op': 'apply', 'a': a + 1, 'b': b + 1}, lambda: x(y))
        elif k == 'mul':
            a = P.pick(big=300)
            if a is None:
                continue
            x = P.regs[a]

            def fits(y):
                if isS(y) != isS(x):
                    return False
                u = set(x.position.dirs) | set(y.position.dirs)
                if isV(x) and set(x.position.dirs) & set(y.position.dirs):
                    return False
                # shared directions of different types, or positions with none, are another matter
                ty = dict(zip(x.position.dirs, x.position.types))
                if any(ty.get(d, t) != t for d, t in zip(y.position.dirs, y.position.types)):
                    return False
                if u and tens.count(kind, len(u), max(x.degree, y.degree)) > 60:
                    return False
                return len(u) <= 4
            b = P.pick(fits, 300)
            if b is None:
                continue
            y = P.regs[b]
            cls = S if isS(x) else V
            f = rr.choice([lambda: x * y, lambda: cls.tensorize([x, y])])
            if isS(x) and (x.position.dim == 0 or y.position.dim == 0):
                f = lambda: x * y
            P.ev({'op': 'mul', 'a': a + 1, 'b': b + 1}, f)
        elif k == 'cross':
            a = P.pick(lambda x: x.position.dim > 0)
            x = P.regs[a]
            n = max(0, x.degree - x.position.dim + 1 + rr.choice([0, 0, 0, -1, 1]))
            P.ev({'op': 'cross', 'a': a + 1, 'n': n}, lambda: x.to_cross(n))
        elif k == 'sub':
            a = P.pick(lambda x: x.position.dim > 0 and not (isV(x) and x.index_set == 'cross_nc'))
            if a is None:
                continue
            x = P.regs[a]
            n = max(0, x.degree + rr.choice([-1, -1, -2, 0, 1]))
            if tens.count(x.index_set, x.position.dim, n) > 60 or (x.index_set[:5] == 'cross' and (n < 1 or x.degree < 1)):
                continue
            P.ev({'op': 'sub', 'a': a + 1, 'n': n}, lambda: x.subdegree(n))
        elif k == 'proj':
            a = P.pick(lambda x: x.position.dim > 0)
            x = P.regs[a]
            ds = [int(d) for d in x.position.dirs]
            keep = sorted(rr.sample(ds, rr.randint(1, len(ds))))
            if x.index_set == 'rectangle' and ds[0] not in keep:
                keep = sorted(set(keep) | {ds[0]})
            P.ev({'op': 'proj', 'a': a + 1, 'dirs': keep}, lambda: x.project(keep[0] if len(keep) == 1 and rr.random() < .5 else list(keep)))
        elif k == 'eq':
            a = P.pick()
            x = P.regs[a]
            b = P.pick(lambda y: isS(y) == isS(x))
            if b is None:
                continue
            y = P.regs[b]
            P.tr.append({'op': 'eq', 'a': a + 1, 'b': b + 1, 'res': int(bool(x == y)), 'ne': int(bool(x != y))})
        else:
            x = P.regs[P.pick(isS)]
            y = P.regs[P.pick(isV)]
            for f in rr.sample([lambda: x + y, lambda: y + x, lambda: x * y, lambda: y * x, lambda: x(x), lambda: y(y), lambda: y(3.), lambda: x * 'a', lambda: y + 'a',
                                lambda: x / x, lambda: y * [1.], lambda: x == 3, lambda: y == x, lambda: S.tensorize([x, y]), lambda: V.tensorize([y, x])], 2):
                P.tr.append({'op': 'refused', 'raised': raises(f)})
    return P.end()


def r_solve(hm, case):
    import contextlib
    import io
    import numpy as np
    rr = random.Random(case['seed'])
    P = Prog(hm, rr)
    kind = rr.choice(KINDS)
    for _ in range(4):
        D = rr.choice([1, 1, 2, 2, 3])
        dirs = sorted(rr.sample(range(5), D))
        m = tens.max_deg(kind, D, 12)
        deg = rr.randint(min(2, m), m)
        n = len(listing(kind, D, deg))
        if n > 30 or n < 3:
            continue
        sparse = rr.random() < .5
        sing = rr.random() < .5
        w = None
        for _ in range(200):
            M = np.array(tens.matrix(rr, n, .6), dtype=float) + np.diag([rr.choice([7., 11., -9., 13.]) for _ in range(n)])
            if not sing:
                if np.linalg.cond(M) < 1e3:
                    break
                continue
            w = np.array([1.] + [rr.choice([0., 0., 1., -1., 2.]) for _ in range(n - 1)])
            M[:, 0] = -M[:, 1:] @ w[1:]
            K = np.block([[M, w[:, None]], [w[None, :], np.zeros((1, 1))]])
            ev = np.sort(np.abs(np.linalg.eigvals(M)))
            if np.linalg.cond(K) < 1e3 and ev[1] > .5:
                break
        else:
            continue
        P.new(1, dirs, kind, deg, vals=[[int(v) for v in r] for r in M], sparse=sparse)
        a = len(P.regs)
        A = P.regs[-1]
        P.new(0, dirs, kind, deg)
        x = P.regs[-1]
        b = P.ev({'op': 'apply', 'a': a, 'b': a + 1}, lambda: A(x))
        if b is None:
            continue
        N, wi = 1, 0
        if sing:
            P.new(0, dirs, kind, deg, vals=[int(v) for v in w])
            wi, wv, N = a + 3, P.regs[-1], int(w @ w)
            kws = [{'remove_vec': wv}, {'remove_vec': wv, 'quiet': True}, {'remove_vec': wv * 3.}]
            if n >= 4:
                kws += [{'remove0': True}, {'remove0': True, 'quiet': True}]
        else:
            kws = [{}, {}]
        kws.append(dict(kws[0], use_gmres=True, tol=1e-13, atol=1e-13, restart=60))
        if sparse and not sing:
            kws.append(dict(kws[-1], preconditioner='ilu'))
        for kw in rr.sample(kws, min(3, len(kws))):
            e = {'op': 'solve', 'a': a, 'b': a + 2, 'N': N, 'w': wi}
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    u = A.solve(b, **kw)
                P.tr.append(dict(e, raised=0, o=observe(hm, u, N)))
            except Exception:
                P.tr.append(dict(e, raised=1))
        # equal after a change of representation
        if n > 4 and rr.random() < .6:
            k = rr.randint(1, n - 3)
            vals, vecs = A.eigs(k=k)
            mat = A.matrix.toarray() if sparse else A.matrix
            res = [[int(round(1e5 * abs(v))) for v in mat @ s.coeffs - l * s.coeffs] for l, s in zip(vals, vecs)]
            P.tr.append({'op': 'eig', 'k': k, 'n': len(vecs), 'res': res, 'norms': [as_int(np.linalg.norm(s.coeffs)) for s in vecs]})
    return P.end()


def r_fun(hm, case):
    """The function of a series in Hermite directions."""
    import numpy as np
    rr = random.Random(case['seed'])
    tr = []
    for _ in range(2):
        kind = rr.choice(KINDS)
        D = rr.choice([1, 2, 2, 3])
        dirs = sorted(rr.sample(range(5), D))
        deg = rr.randint(0, min(tens.max_deg(kind, D, 14), 5))
        if kind == 'rectangle':
            deg = rr.randint(0, 3)
        lst = listing(kind, D, deg)
        c = tens.entries(rr, len(lst), .3)
        mu, sg = [rr.randint(-2, 2) for _ in dirs], [rr.randint(1, 3) for _ in dirs]
        pos = hm.Position(mean=[float(v) for v in mu], cov=np.diag([float(v * v) for v in sg]), dirs=dirs)
        co = [v * math.sqrt(math.prod(math.factorial(i) for i in m)) for v, m in zip(c, lst)]
        s = hm.Series(np.array(co), pos, index_set=kind)
        f = s.to_function()
        xs = [hm.Function.x_sub[d] for d in dirs]
        pts, vals = [], []
        for _ in range(6):
            pt = [rr.randint(-2, 2) for _ in dirs]
            v = f.sym.subs({x: m + p * g for x, m, p, g in zip(xs, mu, pt, sg)})
            pts.append(pt)
            vals.append(as_int(v) if v.is_number and [int(d) for d in f.dirs] == dirs else 2000000001)
        k = rr.randint(1, 4)
        cs = [v * rr.choice([1, 10, 0]) * 10 + rr.choice([0, 1, 49, 51, -49, -51, 99, -3, 20]) for v in c]
        cs = [v + (v % 50 == 0 and v % 100 != 0) for v in cs]
        arr = np.array(cs) / 10. ** (k + 2)
        r = hm.Series(arr, pos, index_set=kind, significant=k)
        tr.append({'op': 'signif', 'c': cs, 'res': ints(np.asarray(r.coeffs) * 10. ** k), 'after': ints(arr * 10. ** (k + 2))})
        tr.append({'op': 'fun', 'list': lst, 'c': c, 'pts': pts, 'vals': vals})
    return tr


def run(case):
    hm = hermipy()
    return globals()['r_' + case['t']](hm, case)
