"""C20: programs over positions and quadratures."""
import random

from drivers.common import hermipy, ints, as_int, raises, rng

TRACE = 'T_Positions'
MC = [('MC_Positions', 'MC_Positions'), ('MC_Positions', 'MC_Positions3')]
ASSUMPTIONS = ['equality up to the tolerance of the library (1e-10)', 'composed quadratures have disjoint directions and as many points per direction',
               'factors are products over directions']
SC = 1000          # nodes and weights are recorded in thousandths


def cases(seed, tier, ctx):
    r = rng(seed, 'c20')
    out = []
    reps = 60 if tier == 'quick' else 600
    for _ in range(reps):
        out.append({'t': 'pos', 'seed': r.randint(0, 10 ** 9), 'len': 25})
        out.append({'t': 'quad', 'seed': r.randint(0, 10 ** 9), 'len': 18})
    for _ in range(10 if tier == 'quick' else 80):
        out.append({'t': 'comp', 'seed': r.randint(0, 10 ** 9)})
        out.append({'t': 'make', 'seed': r.randint(0, 10 ** 9)})
    return out


def obs_p(p):
    import numpy as np
    sq = np.dot(p.factor, p.factor.T)
    return {'dirs': [int(d) for d in p.dirs], 'dim': int(p.dim), 'diag': int(bool(p.is_diag)), 'mean': ints(p.mean),
            'cov': [ints(r) for r in p.cov], 'sq': [ints(r) for r in sq], 'types': [int(t == 'fourier') for t in p.types]}


def obs_q(hm, q):
    import sympy
    o = obs_p(q.position)
    o['nodes'] = [[as_int(v * SC) for v in r] for r in q.nodes]
    o['weights'] = [[as_int(v * SC) for v in r] for r in q.weights]
    o['four'] = [int(x) for x in q.do_fourier]
    xs = [hm.Function.x_sub[d] for d in q.position.dirs]
    # the factor is  prod exp(-a_d x_d): its logarithmic derivatives are -a_d, and 1 at the origin
    s = q.factor.sym
    fac = []
    for x in xs:
        g = sympy.simplify(-sympy.diff(s, x) / s)
        fac.append(as_int(g) if g.is_number else 2000000001)
    one = sympy.simplify(s.subs({x: 0 for x in xs}))
    extra = s.free_symbols - set(xs)
    o['factor'] = fac if one == 1 and not extra and [int(d) for d in q.factor.dirs] == o['dirs'] else [2000000001]
    return o


def rdirs(rr, lo=1, hi=3, shuffle=.2):
    ds = sorted(rr.sample(range(5), rr.randint(lo, hi)))
    if rr.random() < shuffle:
        rr.shuffle(ds)
    return ds


def r_pos(hm, case):
    import numpy as np
    rr = random.Random(case['seed'])
    P = hm.Position
    regs, tr = [], []
    data = {d: (rr.randint(-3, 3), rr.randint(1, 6), rr.choice([0, 0, 1])) for d in range(5)}

    def new(dirs, at, off=None):
        cov = np.diag([float(a[1]) for a in at])
        diag = 1
        if off and len(dirs) > 1:
            cov[0, 1] = cov[1, 0] = .5
            cov[0, 0] = cov[1, 1] = 2.
            diag = 0
        at = [(a[0], int(cov[i, i]), a[2]) for i, a in enumerate(at)]
        kw = {'mean': [float(a[0]) for a in at], 'cov': cov, 'dirs': list(dirs), 'types': [['hermite', 'fourier'][a[2]] for a in at]}
        # leave out what is the default
        if all(a[0] == 0 for a in at) and rr.random() < .7:
            del kw['mean']
        if all(a[1] == 1 for a in at) and diag and rr.random() < .7:
            del kw['cov']
        if list(dirs) == list(range(len(dirs))) and len(kw) > 2 and ('mean' in kw or 'cov' in kw) and rr.random() < .5:
            del kw['dirs']
        if all(a[2] == 0 for a in at) and rr.random() < .5:
            del kw['types']
        p = P(**kw)
        o = obs_p(p)
        if not diag:
            o['cov'] = o['sq'] = [[as_int(2 * v) for v in r] for r in p.cov]
            sq = np.dot(p.factor, p.factor.T)
            o['sq'] = [[as_int(2 * v) for v in r] for r in sq]
            tr.append({'op': 'same', 'a': o['sq'], 'b': o['cov']})
            o['cov'] = o['sq'] = [[int(p.cov[i, i]) if i == j else 0 for j in range(len(dirs))] for i in range(len(dirs))]
        tr.append({'op': 'newp', 'dirs': list(dirs), 'mean': [a[0] for a in at], 'var': [a[1] for a in at],
                   'types': [a[2] for a in at], 'diag': diag, 'o': o})
        regs.append((p, diag))

    for step in range(case['len']):
        k = rr.choice(['new', 'new', 'tens', 'tens', 'proj', 'eq', 'again', 'mut']) if regs else 'new'
        if k == 'new':
            ds = rdirs(rr, 0 if step else 1)
            new(ds, [data[d] for d in ds], off=rr.random() < .12)
        elif k == 'mut':
            p, diag = rr.choice(regs)
            if not diag or not p.dirs:
                continue
            at = [[int(p.mean[i]), int(round(p.cov[i][i])), int(p.types[i] == 'fourier')] for i in range(p.dim)]
            ds = list(p.dirs)
            i = rr.randrange(len(ds))
            w = rr.randrange(6)
            if w == 0:
                at[i][0] += 1
            elif w == 1:
                at[i][1] += 1
            elif w == 2:
                at[i][2] = 1 - at[i][2]
            elif w == 3:
                ds[i] = rr.choice([d for d in range(5) if d not in ds] or [ds[i]])
            elif w == 4 and len(ds) > 1:
                j = (i + 1) % len(ds)
                ds[i], ds[j] = ds[j], ds[i]
            new(ds, at)
            b = len(regs)
            a = [x[0] for x in regs].index(p) if False else next(n for n, x in enumerate(regs) if x[0] is p)
            tr.append({'op': 'eqp', 'a': a + 1, 'b': b, 'res': int(p == regs[-1][0]), 'ne': int(p != regs[-1][0])})
            tr.append({'op': 'eqp', 'a': b, 'b': a + 1, 'res': int(regs[-1][0] == p), 'ne': int(regs[-1][0] != p)})
        elif k == 'tens':
            args = [rr.randrange(len(regs)) for _ in range(rr.choice([1, 2, 2, 2, 3, 3]))]
            # shared directions of different type are not looked at
            ty = {}
            if any(ty.setdefault(d, t) != t for a in args for d, t in zip(regs[a][0].dirs, regs[a][0].types)):
                continue
            ev = {'op': 'tensp', 'args': [a + 1 for a in args]}
            try:
                ps = [regs[a][0] for a in args]
                res = ps[0] * ps[1] if len(ps) == 2 and rr.random() < .5 else P.tensorize(ps)
                tr.append(dict(ev, raised=0, o=obs_p(res)))
                regs.append((res, 1))
            except ValueError:
                tr.append(dict(ev, raised=1))
        elif k == 'proj':
            a = rr.randrange(len(regs))
            p = regs[a][0]
            pool = sorted(p.dirs)
            ds = sorted(rr.sample(pool, rr.randint(1, len(pool)))) if pool and rr.random() < .8 else rdirs(rr, 1, 2, .5)
            if rr.random() < .15:
                rr.shuffle(ds)
            ev = {'op': 'projp', 'a': a + 1, 'dirs': ds}
            try:
                res = p.project(ds[0] if len(ds) == 1 and rr.random() < .5 else list(ds))
                tr.append(dict(ev, raised=0, o=obs_p(res)))
                regs.append((res, 1))
            except ValueError:
                tr.append(dict(ev, raised=1))
        elif k == 'eq':
            a, b = rr.randrange(len(regs)), rr.randrange(len(regs))
            if regs[a][1] and regs[b][1]:
                x, y = regs[a][0], regs[b][0]
                tr.append({'op': 'eqp', 'a': a + 1, 'b': b + 1, 'res': int(x == y), 'ne': int(x != y)})
        else:
            a = rr.randrange(len(regs))
            if regs[a][1]:
                tr.append({'op': 'againp', 'a': a + 1, 'o': obs_p(regs[a][0])})
    for a, (p, diag) in enumerate(regs):
        if diag:
            tr.append({'op': 'againp', 'a': a + 1, 'o': obs_p(p)})
    return tr


class Quads:
    def __init__(self, hm, rr, tr, npts):
        self.hm, self.rr, self.tr, self.n, self.regs = hm, rr, tr, npts, []

    def new(self, dirs, at, nodes=None, weights=None, fac=None):
        import numpy as np
        import sympy
        hm, rr, n = self.hm, self.rr, self.n
        nodes = nodes or [[rr.randint(-3000, 3000) for _ in range(n)] for _ in dirs]
        weights = weights or [[rr.randint(1, 2000) for _ in range(n)] for _ in dirs]
        fac = fac or [rr.choice([0, 0, 1, 2, -1]) for _ in dirs]
        pos = hm.Position(mean=[float(a[0]) for a in at], cov=np.diag([float(a[1]) for a in at]), dirs=list(dirs),
                          types=[['hermite', 'fourier'][a[2]] for a in at])
        f = sympy.Integer(1)
        for d, a in zip(dirs, fac):
            f *= sympy.exp(-a * hm.Function.xyz[d])
        q = hm.Quad([[v / SC for v in r] for r in nodes], [[v / SC for v in r] for r in weights], position=pos,
                    factor=hm.Function(f, dirs=list(dirs)) if rr.random() < .5 else f)
        self.tr.append({'op': 'newq', 'dirs': list(dirs), 'mean': [a[0] for a in at], 'var': [a[1] for a in at],
                        'types': [a[2] for a in at], 'diag': 1, 'nodes': nodes, 'weights': weights, 'factor': fac,
                        'o': obs_q(hm, q)})
        self.regs.append(q)
        self.raw = getattr(self, 'raw', {})
        self.raw[len(self.regs)] = (list(dirs), [list(a) for a in at], nodes, weights, fac)
        return q


def r_quad(hm, case):
    rr = random.Random(case['seed'])
    tr = []
    Q = Quads(hm, rr, tr, rr.randint(2, 4))
    regs = Q.regs
    data = {d: (rr.randint(-3, 3), rr.randint(1, 6), rr.choice([0, 0, 1])) for d in range(5)}
    for step in range(case['len']):
        k = rr.choice(['new', 'new', 'tens', 'tens', 'proj', 'proj', 'eq', 'mut', 'again']) if regs else 'new'
        if k == 'new':
            ds = rdirs(rr, 1, 2, 0)
            Q.new(ds, [data[d] for d in ds])
        elif k == 'mut':
            key = rr.choice(sorted(Q.raw))
            ds, at, no, we, fa = [list(x) for x in Q.raw[key]]
            at, no, we = [list(a) for a in at], [list(a) for a in no], [list(a) for a in we]
            i = rr.randrange(len(ds))
            w = rr.randrange(9)
            j = rr.randrange(len(no[0]))
            if w == 0:
                at[i][0] += 1
            elif w == 1:
                at[i][1] += 1
            elif w == 2:
                at[i][2] = 1 - at[i][2]
            elif w == 3:
                no[i][j] += 1
            elif w == 4:
                we[i][j] += 1
            elif w == 5:
                fa[i] += 1
            elif w == 6:
                ds[i] = rr.choice([d for d in range(5) if d not in ds] or [ds[i]])
                ds.sort()
            elif w == 7:
                n0 = Q.n
                Q.n = n0 + 1
                no = [r + [5] for r in no]
                we = [r + [5] for r in we]
                Q.n = n0
            b = Q.new(ds, at, no, we, fa)
            a = regs[key - 1]
            tr.append({'op': 'eqq', 'a': key, 'b': len(regs), 'res': int(a == b), 'ne': int(a != b)})
            tr.append({'op': 'eqq', 'a': len(regs), 'b': key, 'res': int(b == a), 'ne': int(b != a)})
        elif k == 'tens':
            args, used = [], set()
            for a in rr.sample(range(len(regs)), len(regs)):
                if not used & set(regs[a].position.dirs) and len(args) < 3 and regs[a].nodes.shape[1] == Q.n:
                    args.append(a)
                    used |= set(regs[a].position.dirs)
            if not args:
                continue
            qs = [regs[a] for a in args]
            if sum(len(q.position.dirs) for q in qs) > 4:
                continue
            res = qs[0] * qs[1] if len(qs) == 2 and rr.random() < .5 else hm.Quad.tensorize(qs)
            tr.append({'op': 'tensq', 'args': [a + 1 for a in args], 'raised': 0, 'o': obs_q(hm, res)})
            regs.append(res)
            # the parts come back
            for a in args:
                p = regs[a]
                if list(p.position.dirs) == sorted(p.position.dirs):
                    back = res.project(list(p.position.dirs))
                    tr.append({'op': 'projq', 'a': len(regs), 'dirs': [int(d) for d in p.position.dirs], 'raised': 0, 'o': obs_q(hm, back)})
                    tr.append({'op': 'same', 'a': int(back == p), 'b': 1})
                    # a register of its own in the specification
                    regs.append(back)
                    res = res
                    break
        elif k == 'proj':
            a = rr.randrange(len(regs))
            pool = sorted(regs[a].position.dirs)
            ds = sorted(rr.sample(pool, rr.randint(1, len(pool))))
            ev = {'op': 'projq', 'a': a + 1, 'dirs': ds}
            try:
                res = regs[a].project(list(ds))
                tr.append(dict(ev, raised=0, o=obs_q(hm, res)))
                regs.append(res)
            except ValueError:
                tr.append(dict(ev, raised=1))
        elif k == 'eq':
            a, b = rr.randrange(len(regs)), rr.randrange(len(regs))
            tr.append({'op': 'eqq', 'a': a + 1, 'b': b + 1, 'res': int(regs[a] == regs[b]), 'ne': int(regs[a] != regs[b])})
        else:
            a = rr.randrange(len(regs))
            tr.append({'op': 'againq', 'a': a + 1, 'o': obs_q(hm, regs[a])})
    for a, q in enumerate(regs):
        tr.append({'op': 'againq', 'a': a + 1, 'o': obs_q(hm, q)})
    # non-diagonal positions refuse both
    import numpy as np
    ds = sorted(rr.sample(range(5), 2))
    q = hm.Quad.gauss_hermite(3, dirs=ds, cov=np.array([[2., .5], [.5, 1.]]))
    other = hm.Quad.gauss_hermite(3, dirs=[next(d for d in range(5) if d not in ds)])
    for f in (lambda: q * other, lambda: other * q, lambda: q.project([ds[0]]), lambda: q.position.project([ds[1]]),
              lambda: q.position * other.position, lambda: q.position.project(list(ds)), lambda: hm.Position.tensorize([q.position])):
        tr.append({'op': 'refused', 'raised': raises(f)})
    return tr


def r_comp(hm, case):
    from hermipy.compquad import CompQuad
    rr = random.Random(case['seed'])
    tr = []
    Q = Quads(hm, rr, tr, 3)
    ds = sorted(rr.sample(range(5), 2))
    at = [(rr.randint(-2, 2), rr.randint(1, 4), 0) for _ in ds]
    for _ in range(3):
        Q.new(ds, at)
    ds0, at0, no, we, fa = Q.raw[1]
    no2 = [list(r) for r in no]
    no2[1][2] += 1
    Q.new(ds0, at0, no2, we, fa)
    Q.new(ds0, at0, no, we, fa)
    for _ in range(14):
        sides = []
        for _ in range(2):
            n = rr.randint(1, 3)
            qs = [rr.choice([1, 1, 2, 3, 4, 5]) for _ in range(n)]
            w = [rr.choice([1, 1, 2, -1]) for _ in range(n)]
            dirs = rr.choice([[], [], [ds[0]], [ds[1]]])
            sides.append({'qs': qs, 'w': w, 'dirs': dirs})
        if rr.random() < .4:
            sides[1] = dict(sides[0], qs=[{1: 5, 5: 1}.get(i, i) for i in sides[0]['qs']])
            if rr.random() < .4:
                sides[1]['w'] = rr.sample(sides[0]['w'], len(sides[0]['w']))
        if rr.random() < .2:
            sides[1] = {'qs': [rr.choice(sides[0]['qs'])], 'w': [1], 'dirs': []}
        c = []
        for k, s in enumerate(sides):
            if k and len(s['qs']) == 1 and s['w'] == [1] and rr.random() < .5:
                x = Q.regs[s['qs'][0] - 1]
                c.append(x.project(list(s['dirs'])) if s['dirs'] else x)
                continue
            x = CompQuad([Q.regs[i - 1] for i in s['qs']], list(s['w']))
            if s['dirs']:
                x = x.project(list(s['dirs']))
            c.append(x)
        tr.append({'op': 'eqc', 'x': sides[0], 'y': sides[1], 'res': int(c[0] == c[1])})
    q = hm.Quad.gauss_hermite(3, dirs=[next(d for d in range(5) if d not in ds)])
    tr.append({'op': 'refused', 'raised': raises(lambda: CompQuad([Q.regs[0], q], [1, 1]))})
    tr.append({'op': 'refused', 'raised': raises(lambda: CompQuad([Q.regs[0]], [1, 1]))})
    tr.append({'op': 'refused', 'raised': raises(lambda: CompQuad([], []))})
    return tr


def r_make(hm, case):
    """The constructors put what they are given where it belongs."""
    import numpy as np
    rr = random.Random(case['seed'])
    tr = []
    for _ in range(8):
        ds = sorted(rr.sample(range(5), rr.randint(1, 3)))
        n = rr.randint(2, 6)
        mean = [rr.randint(-3, 3) for _ in ds]
        if rr.random() < .5:
            var = [rr.randint(1, 5) for _ in ds]
            q = hm.Quad.gauss_hermite(n, dirs=list(ds), mean=[float(m) for m in mean], cov=np.diag([float(v) for v in var]))
            x, w = np.polynomial.hermite_e.hermegauss(n)
            w = w / np.sqrt(2 * np.pi)
            ty = 0
        else:
            k = [rr.randint(1, 3) for _ in ds]
            var = [c * c for c in k]
            b = [(m - np.pi * c, m + np.pi * c) for m, c in zip(mean, k)]
            if rr.random() < .5:
                q = hm.Quad.fourier(n, bounds=b, dirs=list(ds))
            else:
                pos = hm.Position(dirs=list(ds), mean=[float(m) for m in mean], cov=np.diag([float(v) for v in var]), types=['fourier'] * len(ds))
                q = hm.Quad.fourier(n, position=pos)
            x = -np.pi + 2 * np.pi * np.arange(n) / n
            w = 2 * np.pi / n * np.ones(n)
            ty = 1
        o = obs_q(hm, q)
        rnd = lambda v: [[int(round(y * 10 ** 6)) for y in r] for r in v]
        tr.append({'op': 'same', 'a': rnd(q.nodes), 'b': rnd([x] * len(ds))})
        tr.append({'op': 'same', 'a': rnd(q.weights), 'b': rnd([w] * len(ds))})
        nodes = weights = [[0]] * len(ds)
        o['nodes'] = o['weights'] = nodes
        tr.append({'op': 'newq', 'dirs': ds, 'mean': mean, 'var': var, 'types': [ty] * len(ds), 'diag': 1, 'nodes': nodes,
                   'weights': weights, 'factor': [0] * len(ds), 'o': o})
    return tr


def run(case):
    hm = hermipy()
    return globals()['r_' + case['t']](hm, case)
