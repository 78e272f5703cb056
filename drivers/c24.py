"""C24: the equation builders."""
import contextlib
import io
import itertools
import random
from fractions import Fraction
from math import lcm

from drivers import weyl
from drivers.common import BAD, hermipy, rng

TRACE = 'T_Equations'
MC = [('MC_Equations', 'MC_Equations')]
NAMES = ['fp1d', 'white', 'ou', 'harmonic', 'overdamped', 'langevinF', 'langevinB', 'gle0', 'gle1', 'gle2']
DIM = {'fp1d': 1, 'white': 1, 'overdamped': 1, 'ou': 2, 'langevinF': 2, 'langevinB': 2, 'gle0': 2, 'harmonic': 3, 'gle1': 3, 'gle2': 4}
ASSUMPTIONS = ['polynomial potentials with integer coefficients, rational parameters with small denominators; square roots of 1/beta rational',
               'given noise potentials Vy are quadratic (the normalisation of the noise is then known in closed form)']


def rat(rr, dens=(1, 1, 2, 3), lo=1, hi=5):
    return Fraction(rr.randint(lo, hi), rr.choice(dens))


def poly(rr, deg=4):
    v = [rr.randint(-3, 3) for _ in range(rr.randint(2, deg + 1))]
    if not any(v[1:]):
        v[1] = 2
    return v


def params(rr, name):
    p = {}
    if name in ('fp1d', 'overdamped', 'white', 'ou', 'harmonic', 'langevinB', 'gle0', 'gle1', 'gle2'):
        p['v'] = poly(rr)
    if name in ('fp1d', 'overdamped', 'white', 'langevinB', 'gle0', 'gle1', 'gle2'):
        p['beta'] = rat(rr)
    if name in ('white', 'ou', 'harmonic'):
        p['theta'] = rat(rr, (1, 2), -4, 4)
        p['m'] = rat(rr, (1, 3), -4, 4)
    if name in ('ou', 'harmonic'):
        p['s'] = rat(rr, (1, 2), 1, 3)
        p['gamma'] = rat(rr, (1, 2), 0, 3)
        p['eps'] = rat(rr, (1, 2), 1, 3)
    if name == 'ou':
        p['vy'] = poly(rr, 3)
        p['c'] = Fraction(1)
    if name == 'langevinF':
        p['lam'] = rat(rr)
    if name in ('langevinB', 'gle0'):
        p['gamma'] = rat(rr)
    if name in ('gle1', 'gle2'):
        m = DIM[name] - 2
        p['lam'] = [rat(rr, (1, 2), 0 if i else 1, 3) for i in range(m)]
        while True:
            A = [[rat(rr, (1, 1, 2), -2, 4) for _ in range(m)] for _ in range(m)]
            if rr.random() < .5 and m == 2:
                A[1][0] = A[0][1]
            if A[0][0] > 0 and (m == 1 or A[0][0] * A[1][1] > ((A[0][1] + A[1][0]) / 2) ** 2):
                break
        p['A'] = A
    return p


def scale(p):
    S = 1

    def go(x, k):
        nonlocal S
        if isinstance(x, list):
            for y in x:
                go(y, k)
        elif isinstance(x, Fraction):
            S = lcm(S, x.denominator ** k)
    go([p.get('lam', Fraction(1))], 1)
    S = lcm(S, p.get('theta', Fraction(1)).denominator * p.get('m', Fraction(1)).denominator)
    if 'beta' in p:
        d = p['beta'].numerator
        den = [1]
        for x in [p.get('gamma', Fraction(1))] + [y for r in p.get('A', []) for y in r]:
            den.append(x.denominator)
        S = lcm(S, d * lcm(*den), lcm(*den))
    if 's' in p:
        g = p['gamma'].denominator
        S = lcm(S, g * p['s'].denominator * p['eps'].numerator * p['c'].denominator if 'c' in p else g * p['s'].denominator * p['eps'].numerator,
                g ** 2 * p['s'].denominator ** 2, p['eps'].numerator ** 2)
    elif 'gamma' in p:
        S = lcm(S, p['gamma'].denominator)
    return S


def js(x):
    if isinstance(x, Fraction):
        return [x.numerator, x.denominator]
    if isinstance(x, list):
        return [js(y) for y in x]
    if isinstance(x, dict):
        return {k: js(v) for k, v in x.items()}
    return x


def cases(seed, tier, ctx):
    r = rng(seed, 'c24')
    out = []
    reps = 24 if tier == 'quick' else 250
    for name in NAMES:
        n = reps if DIM[name] < 4 else reps // 2
        for i in range(n):
            out.append({'t': 'eqn', 'name': name, 'route': r.choice(['num', 'num', 'sym', 'float']), 'seed': r.randint(0, 10 ** 9)})
        for i in range(n // 6):
            out.append({'t': 'map', 'name': name, 'seed': r.randint(0, 10 ** 9)})
    for name in ('white', 'ou', 'harmonic'):
        for i in range(8 if tier == 'quick' else 60):
            out.append({'t': 'flux', 'name': name, 'route': r.choice(['num', 'sym', 'float']), 'seed': r.randint(0, 10 ** 9)})
    for name in ('white', 'fp1d', 'ou', 'harmonic', 'langevinF'):
        for i in range(3 if tier == 'quick' else 16):
            out.append({'t': 'gauss', 'name': name, 'seed': r.randint(0, 10 ** 9)})
    for i in range(4 if tier == 'quick' else 24):
        out.append({'t': 'vy', 'seed': r.randint(0, 10 ** 9)})
    return out


def build(hm, name, p, route='num', rr=None, flux=False):
    """the operator as a sympy expression, its variables and its unknown"""
    import sympy
    import hermipy.equations as eq
    R = lambda q: sympy.Rational(q.numerator, q.denominator)
    x, y, z, w = sympy.symbols('x y z w', real=True)

    def pot(v, var):
        return sum((sympy.Integer(c) * var ** i for i, c in enumerate(v)), sympy.Integer(0))
    cls = {'fp1d': eq.Fokker_Planck_1d, 'white': eq.McKean_Vlasov_white, 'ou': eq.McKean_Vlasov, 'harmonic': eq.McKean_Vlasov_harmonic_noise,
           'overdamped': eq.Overdamped, 'langevinF': eq.Langevin, 'langevinB': eq.Langevin, 'gle0': eq.Generalized_Langevin,
           'gle1': eq.Generalized_Langevin, 'gle2': eq.Generalized_Langevin}[name]
    vals = {}
    if 'beta' in p:
        vals['β'] = R(p['beta'])
    if 's' in p:
        vals['β'] = 1 / R(p['s']) ** 2
        vals['ε'] = R(p['eps'])
    for a, b in (('theta', 'θ'), ('m', 'm'), ('gamma', 'γ')):
        if a in p:
            vals[b] = R(p[a])
    if name == 'gle1':
        vals.update({'λ': R(p['lam'][0]), 'α': R(p['A'][0][0])})
    if name == 'gle2':
        vals.update({'λ1': R(p['lam'][0]), 'λ2': R(p['lam'][1])})
        for i in (0, 1):
            for j in (0, 1):
                vals['A%d%d' % (i + 1, j + 1)] = R(p['A'][i][j])
    funs = {}
    if 'v' in p:
        funs[{'overdamped': 'V', 'langevinB': 'Vy', 'gle0': 'Vx', 'gle1': 'Vx', 'gle2': 'Vx'}.get(name, 'Vp')] = pot(p['v'], y if name == 'langevinB' else x)
    if name == 'ou':
        funs['Vy'] = pot(p['vy'], y)
    unknown = {'gle0': 'fL', 'gle1': 'f1', 'gle2': 'f2'}.get(name, 'f')
    f = getattr(cls, unknown)
    vs = [x, y, z, w][:DIM[name]]
    if name == 'langevinF':
        lam = R(p['lam'])
        if route == 'sym':
            s = sympy.Symbol('lam')
            return cls.forward(s).subs(s, lam), vs, f
        return cls.forward(float(lam) if route == 'float' else lam), vs, f
    meth = cls.backward if name in ('overdamped', 'langevinB', 'gle0', 'gle1', 'gle2') else cls.equation
    if flux:
        def meth(q):
            res = cls.fluxes(q)
            return list(res) if isinstance(res, (list, tuple)) else [res]
    with contextlib.redirect_stdout(io.StringIO()):
        if route in ('num', 'float') and not (name == 'ou' and p['c'] == 1):
            if route == 'float' and name != 'gle2':
                vals = {k: float(v) for k, v in vals.items()}
            return meth({**vals, **funs}), vs, f
        # symbols first, values afterwards
        syms = {k: sympy.Symbol(k, real=True, **({'positive': True} if k in ('β', 'γ', 'ε') else {})) for k in vals}
        fsym = {k: sympy.Function(k)(*(e.free_symbols and [sorted(e.free_symbols, key=str)[0]] or [x])) for k, e in funs.items()}
        if hasattr(cls, 'params') and name not in ('gle0',):
            own = cls.params(DIM[name] - 2) if name in ('gle1', 'gle2') else cls.params()
            for k in syms:
                syms[k] = own.get(k, syms[k])
            for k in fsym:
                fsym[k] = own.get(k, fsym[k])
        def put(e):
            for k in fsym:
                e = e.subs(fsym[k], funs[k])
            return e.doit().subs([(syms[k], vals[k]) for k in vals])
        e = meth({**syms, **fsym})
        return [put(c) for c in e] if flux else put(e), vs, f


def tests(expr, vs, f, S):
    import sympy
    out = []
    expr = sympy.sympify(expr)
    for on in itertools.product(range(4), repeat=len(vs)):
        if sum(on) > 2 and not (sum(on) == 3 and len(vs) < 3):
            continue
        u = sympy.Integer(1)
        for v, a in zip(vs, on):
            u *= v ** a
        out.append({'on': list(on), 'res': weyl.poly_terms(expr.subs(f, u).doit(), vs, S)})
    return out


def run(case):
    import sympy
    import hermipy.equations as eq
    hm = hermipy()
    rr = random.Random(case['seed'])
    name = case.get('name', 'ou')
    p = params(rr, name)
    if case['t'] == 'vy':
        # the potential of the noise given explicitly: noise normalised to unit effective strength
        k = rr.choice([1, 2])
        p['vy'] = [rr.randint(0, 2), 0, k]
        # gen = 2 k y d - d^2, inverse of y: y / (2 k); stationary variance 1 / (2 k)
        p['c'] = Fraction(2 * k)
        e, vs, f = build(hm, name, p, 'num')
        S = scale(p)
        return [{'op': 'eqn', 'name': name, 'p': js(p), 'S': S, 'tests': tests(e, vs, f, S)}]
    if case['t'] == 'eqn':
        e, vs, f = build(hm, name, p, case['route'], rr)
        S = scale(p)
        return [{'op': 'eqn', 'name': name, 'p': js(p), 'S': S, 'tests': tests(e, vs, f, S)}]
    if case['t'] == 'flux':
        e, vs, f = build(hm, name, p, case['route'], rr, flux=True)
        S = scale(p)
        return [{'op': 'flux', 'name': name, 'p': js(p), 'S': S, 'comps': [tests(c, vs, f, S) for c in e]}]
    if case['t'] == 'map':
        e, vs, f = build(hm, name, p, 'num')
        S = scale(p)
        q = sympy.Integer(0)
        for _ in range(3):
            t = sympy.Integer(rr.randint(-2, 2))
            for _ in range(rr.randint(1, 2)):
                t *= rr.choice(vs)
            q += t
        m = eq.map_operator(e, f, sympy.exp(-q))
        return [{'op': 'map', 'name': name, 'p': js(p), 'S': S, 'q': weyl.poly_terms(q, vs), 'tests': tests(m, vs, f, S)}]
    # Gaussian stationary densities of linear dynamics
    if 'v' in p:
        p['v'] = [0, 0, rr.randint(1, 2)]
    if name in ('ou', 'harmonic', 'white'):
        p['m'], p['theta'] = Fraction(0), Fraction(rr.choice([0, 1, 2]), rr.choice([1, 2]))
    if name in ('ou', 'harmonic'):
        p.update(gamma=Fraction(rr.choice([0, 1]), 2), eps=Fraction(1, rr.choice([1, 2])), s=Fraction(1, rr.choice([1, 2])))
    if name == 'ou':
        p['vy'], p['c'] = [0, 0, rr.choice([1, 2])], Fraction(1)
    e, vs, f = build(hm, name, p, 'num')
    S = scale(p)
    sol = eq.solve_gaussian(e, f, vs)
    D = len(vs)
    g = [sympy.expand(sympy.simplify(-sympy.diff(sol, v) / sol)) for v in vs]
    zero = {v: 0 for v in vs}
    q = sympy.expand(sum(v * h for v, h in zip(vs, g)) / 2)
    P = sympy.Poly(q, *vs)
    M = lcm(*[int(sympy.Rational(c).q) for c in P.coeffs()])
    c2 = sympy.nsimplify(sympy.simplify(sol.subs(zero) ** 2 * (2 * sympy.pi) ** D))
    return [{'op': 'gauss', 'name': name, 'p': js(p), 'S': S, 'Q': weyl.poly_terms(q, vs, M), 'M': M, 'num': int(c2.p), 'den': int(c2.q)}]
