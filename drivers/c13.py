"""C13: programs over operators."""
import random

from drivers import weyl
from drivers.common import hermipy, raises, rng

TRACE = 'T_Weyl'
MC = [('MC_Weyl', 'MC_Weyl')]
ASSUMPTIONS = ['polynomial coefficients with integer values; conjugation by exp(-q), q polynomial of degree <= 2']


# factors that come with every coefficient: numbers of all kinds, functions, parameters
UNITS = ['1/3', 'pi', 'sqrt(2)', '0.1', '1e-9', '2**70', '-1e12', '7/11', 'exp(5)', 'exp(x)', 'sin(x)', 'exp(-x**2/2)', '1/(1+x**2)', 'alpha',
         'alpha*exp(x)', 'cos(x)', 'exp(x)*x**2', 'sqrt(alpha)']


def cases(seed, tier, ctx):
    r = rng(seed, 'c13')
    out = []
    reps = 40 if tier == 'quick' else 250
    for D in (1, 2, 3):
        for _ in range(reps):
            out.append({'t': 'prog', 'dirs': sorted(r.sample(range(5), D)), 'len': r.randint(4, 9),
                        'seed': r.randint(0, 10**9)})
    for D in (1, 2, 3):
        for _ in range(6):
            out.append({'t': 'order', 'dirs': sorted(r.sample(range(5), D)), 'seed': r.randint(0, 10**9)})
    for D in (4, 5):
        for _ in range(2):
            out.append({'t': 'order', 'dirs': sorted(r.sample(range(5), D)), 'seed': r.randint(0, 10**9)})
        for _ in range(reps // 10):
            out.append({'t': 'prog', 'dirs': sorted(r.sample(range(5), D)), 'len': r.randint(3, 5), 'seed': r.randint(0, 10**9)})
    for D in (1, 1, 2, 2, 3):
        for u in range(len(UNITS)):
            out.append({'t': 'unit', 'dirs': sorted(r.sample(range(5), D)), 'u': u, 'seed': r.randint(0, 10**9)})
    out.append({'t': 'bad', 'dirs': [0, 1]})
    out.append({'t': 'bad', 'dirs': [1, 3]})
    out.append({'t': 'bad', 'dirs': [2]})
    return out


def rterms(rr, D, n, order, deg):
    ts = []
    for _ in range(rr.randint(1, n)):
        d = [0] * D
        for _ in range(rr.randint(0, order)):
            d[rr.randrange(D)] += 1
        f = [0] * D
        for _ in range(rr.randint(0, deg)):
            f[rr.randrange(D)] += 1
        ts.append({'c': rr.choice([-3, -2, -1, 1, 2, 3, 4]), 'f': [['x', a] for a in f], 'd': d})
    return ts


def fsym(ts, vs):
    import sympy
    e = sympy.Integer(0)
    for t in ts:
        m = sympy.Integer(t['c'])
        for v, (_, a) in zip(vs, t['f']):
            m *= v ** a
        e += m
    return e


def osym(ts, vs, name='f'):
    import sympy
    u = sympy.Function(name)(*vs)
    e = sympy.Integer(0)
    for t in ts:
        m = sympy.Integer(t['c'])
        der = u
        for v, (_, a), k in zip(vs, t['f'], t['d']):
            m *= v ** a
            if k:
                der = sympy.diff(der, v, k)
        e += m * der
    return e


def total_order(op):
    return max([sum(t['d']) for t in op] or [0])


def run(case):
    import sympy
    hm = hermipy()
    F, O = hm.Function, hm.Operator
    dirs = case['dirs']
    D = len(dirs)
    tr = []
    vx = [F.xyz[d] for d in dirs]
    if case['t'] == 'bad':
        f = sympy.Function('f')
        u = f(*vx)
        x = vx[0]
        for e in (u ** 2, u * u.diff(x), u.diff(x) ** 2, sympy.sin(u), u + 1, 1 / u, x * u + u ** 3, u.diff(x, 6),
                  sympy.exp(u) * u, u + x, sympy.sqrt(u), u * u.diff(x, 2) + u, u.diff(x) * u.diff(x, 2)):
            tr.append({'op': 'refused', 'raised': raises(lambda: O(e, dirs=list(dirs)).split())})
        g = sympy.Function('g')
        tr.append({'op': 'refused', 'raised': raises(lambda: O(u + g(*vx)))})
        tr.append({'op': 'refused', 'raised': raises(lambda: O(sympy.Integer(0)))})
        other = [d for d in range(5) if d not in dirs][0]
        w = O(sympy.Function('f')(F.xyz[other]))
        a = O(u)
        for h in (lambda: a + w, lambda: a - w, lambda: a * F('1', dirs=[other]), lambda: a.map(F('1', dirs=[other]))):
            tr.append({'op': 'refused', 'raised': raises(h)})
        return tr
    rr = random.Random(case['seed'])
    regs, ops = [], []

    def obs(op):
        return {'D': D, 'split': weyl.split_terms(op), 'tests': weyl.tests(rr, op, D, 2, 3)}

    if case['t'] == 'unit':
        for _ in range(2):
            ts = rterms(rr, D, 4, rr.choice([1, 2, 3, 4]), 3)
            unit = sympy.sympify(UNITS[case['u']], locals={'x': rr.choice(vx), 'alpha': sympy.Symbol('alpha', positive=True)})
            e = osym(ts, vx)
            if e == 0:
                continue
            if rr.random() < .5:
                op = O(unit * e if rr.random() < .5 else sympy.expand(unit * e))
            elif rr.random() < .5:
                op = O(e) * unit
            else:
                op = O(e) * F(unit, dirs=list(dirs))
            if rr.random() < .3:
                ts = [dict(t, c=-t['c']) for t in ts]
                op = -op
            if rr.random() < .3:
                ts = ts + ts
                op = op + op
            sub = {v: F.x_sub[d] for v, d in zip(vx, dirs)}
            sc = 1 / unit.subs(sub)
            vs = [F.x_sub[d] for d in dirs]
            tr.append({'op': 'new', 'terms': ts, 'D': D, 'split': weyl.split_terms(op, sc), 'tests': weyl.tests(rr, op, D, 2, 3, sc)})
        return tr
    if case['t'] == 'order':
        # up to the highest total order supported, one term each and all together
        ts = rterms(rr, D, 6, 5, 2)
        d = [0] * D
        for _ in range(5):
            d[rr.randrange(D)] += 1
        ts.append({'c': 2, 'f': [['x', 1]] * D, 'd': d})
        op = O(osym(ts, vx))
        return [dict(obs(op), op='new', terms=ts)]
    big = 0
    plan = []
    if D > 3:      # two operators and then each operation once
        plan = ['new', 'new'] + rr.sample(['add', 'sub', 'neg', 'mulf', 'comp', 'map', 'call', 'again', 'eq'], 9)
    for step in range(len(plan) or case['len']):
        k = plan[step] if plan else rr.choice(['new', 'add', 'sub', 'neg', 'mulf', 'comp', 'map', 'call', 'again', 'eq']) if regs else 'new'
        if k == 'new':
            ts = rterms(rr, D, 3, 2, 2)
            name = rr.choice(['f', 'u', 'g'])
            var = vx if rr.random() < .7 else [F.x_sub[d] for d in dirs]
            e = osym(ts, var, name)
            op = O(e) if e != 0 and rr.random() < .7 else O(e, dirs=list(dirs))
            tr.append(dict(obs(op), op='new', terms=ts))
            regs.append(op)
            continue
        a = rr.randrange(len(regs))
        b = rr.randrange(len(regs))
        if plan and a == b:
            b = (a + 1) % len(regs)
        A, B = regs[a], regs[b]
        ev = {'op': k, 'a': a + 1, 'b': b + 1}
        try:
            sa, sb = weyl.split_terms(A), weyl.split_terms(B)
        except ValueError:
            continue
        if k == 'add':
            res = A + B
        elif k == 'sub':
            res = A - B
        elif k == 'neg':
            res = -A
        elif k == 'mulf':
            f = rterms(rr, D, 2, 0, 2)
            fs = fsym(f, vx)
            arg = F(fs, dirs=list(dirs)) if rr.random() < .5 else fs
            if len(f) == 1 and all(x[1] == 0 for x in f[0]['f']) and rr.random() < .5:
                arg = f[0]['c']
            res = arg * A if isinstance(arg, int) and rr.random() < .5 else A * arg
            ev['f'] = f
        elif k == 'comp':
            if total_order(sa) + total_order(sb) > 5 or not sa or not sb:
                continue
            res = A(B) if rr.random() < .7 else A(B.sym)
        elif k == 'map':
            if total_order(sa) > 3:
                continue
            q = [t for t in rterms(rr, D, 3, 0, 2) if any(x[1] for x in t['f'])]
            if not q:
                continue
            rho = sympy.exp(-fsym(q, vx))
            res = A.map(F(rho, dirs=list(dirs)) if rr.random() < .5 else rho)
            ev['q'] = q
        elif k == 'call':
            f = rterms(rr, D, 3, 0, 4)
            fs = fsym(f, vx)
            if rr.random() < .6:
                arg = F(fs, dirs=list(dirs))
            elif fs == 0:
                continue
            else:
                arg = fs
            r = A(arg)
            if not isinstance(r, F) or [int(x) for x in r.dirs] != dirs:
                tr.append({'op': 'wrongtype'})
                continue
            tr.append(dict(ev, f=f, res=weyl.poly_terms(r.sym, [F.x_sub[d] for d in dirs])))
            continue
        elif k == 'eq':
            if rr.random() < .4:
                B = O(A.sym, dirs=list(dirs))
                ev['b'] = ev['a']
            tr.append({'op': 'eq', 'a': ev['a'], 'b': ev['b'], 'res': int(A == B)})
            continue
        else:
            tr.append(dict(ev, **obs(A)))
            continue
        if [int(x) for x in res.dirs] != dirs:
            tr.append({'op': 'wrongdirs'})
            continue
        o = obs(res)
        if any(abs(t['c']) > 10 ** 6 for t in o['split']) or len(o['split']) > 60:
            if all(t['c'] < 2000000000 for t in o['split']):
                big += 1
                if big > 3:
                    break
                continue
        tr.append(dict(ev, **o))
        regs.append(res)
    return tr
