"""C12: symbolic functions: notations, C code, splitting, projection."""
import ctypes
import itertools
import math
import os
import random
import subprocess

from drivers import tens
from drivers.common import as_int, hermipy, ints, raises, rng

TRACE = 'T_Exprs'
MC = [('MC_Exprs', 'MC_Exprs')]
MC_THOROUGH = [('MC_Exprs', 'MC_Exprs5')]
ASSUMPTIONS = ['functions are compared by their values on a set of integer points']


def cases(seed, tier, ctx):
    r = rng(seed, 'c12')
    out = []
    reps = 16 if tier == 'quick' else 120
    for D in range(1, 6):
        for _ in range(reps):
            out.append({'t': 'fun', 'dirs': sorted(r.sample(range(5), D)), 'n': 4, 'seed': r.randint(0, 10**9)})
    for n in range(1, 6):
        for p in tens.partitions(range(n)):
            out.append({'t': 'finest', 'n': n, 'p': p})
    r5 = list(tens.partitions([0, 2, 3, 4]))
    out.append({'t': 'finest', 'n': 0, 'els': [0, 2, 3, 4], 'p': r5[7]})
    # larger partitions, and chains of overlapping blocks
    for n in (6, 7, 8, 9, 10):
        for _ in range(4 if tier == 'quick' else 20):
            out.append({'t': 'finest', 'n': n, 'p': blocks(r, n), 'qs': [blocks(r, n) for _ in range(12)]})
    out.append({'t': 'misc'})
    return out


def blocks(r, n):
    els = list(range(n))
    if r.random() < .4:
        # {0} {1 2} {3 4} .. or {0 1} {2 3} ..
        a = r.randint(0, 1)
        return [[0]] * a + [els[i:i + 2] for i in range(a, n, 2)]
    r.shuffle(els)
    out = [[]]
    for x in els:
        if out[-1] and r.random() < .6:
            out.append([])
        out[-1].append(x)
    return out


def term(rr, dirs):
    """[c, e, s, p, m]; values on {0,1,2}^5 stay far below 2^31"""
    e, s, p, m = [0] * 5, [0] * 5, [0] * 5, []
    for d in dirs:
        e[d] = rr.choice([0, 0, 1, 2, 3])
        s[d] = int(rr.random() < .25)
        p[d] = int(rr.random() < .25)
    if len(dirs) > 1:
        for _ in range(rr.choice([0, 0, 1, 1, 2, 3])):
            a, b = rr.sample(dirs, 2)
            m.append([rr.choice('sp'), min(a, b), max(a, b)])
    if len(dirs) > 2 and rr.random() < .3:
        m.append(['s'] + sorted(rr.sample(dirs, rr.randint(3, len(dirs)))))
        rr.shuffle(m)
    # one coupling of a kind per pair (equal ones would merge)
    mm = []
    for x in m:
        if x not in mm:
            mm.append(x)
    if len(dirs) > 3:
        e = [min(x, 2) for x in e]
        mm = mm[:2]
    return {'c': rr.choice([-7, -3, -2, 2, 3, 5]), 'e': e, 's': s, 'p': p, 'm': mm}


def to_sym(t, var):
    import sympy
    x = sympy.Integer(t['c'])
    for d in range(5):
        x *= var[d] ** t['e'][d]
        if t['s'][d]:
            x *= sympy.cos(sympy.pi * var[d])
        if t['p'][d]:
            x *= 2 ** (t['p'][d] * var[d])
    for k, *ds in t['m']:
        q = sympy.prod([var[d] for d in ds])
        x *= sympy.cos(sympy.pi * q) if k == 's' else 2 ** q
    return x


def points(rr, dirs, n):
    pts = []
    for _ in range(n):
        pt = [0] * 5
        for d in dirs:
            pt[d] = rr.choice([0, 1, 1, 2, 2, 3] if len(dirs) < 3 else [0, 1, 1, 2])
        pts.append(pt)
    return pts


def unit(rr):
    """a constant the function is multiplied by; the values are divided by it again"""
    import sympy
    return rr.choice([sympy.Integer(1)] * 4 + [sympy.Integer(2) ** 70, sympy.Integer(-10) ** 19, sympy.Rational(1, 3),
                      sympy.Rational(1, 2 ** 30), sympy.pi, sympy.sqrt(2), sympy.Float(0.3), sympy.E])


def values(expr, pts, var, un=1.):
    """evaluate with plain Python arithmetic"""
    import sympy
    f = sympy.lambdify(list(var), expr, modules=['math'])
    return [as_int(f(*[float(x) for x in p]) / un, 1e-5) for p in pts]


def run(case):
    import sympy
    hm = hermipy()
    import hermipy.lib as lib
    F = hm.Function
    tr = []
    if case['t'] == 'finest':
        els = case.get('els') or list(range(case['n']))
        p = {frozenset(b) for b in case['p']}
        qs, res = [], []
        for q in case.get('qs') or tens.partitions(els):
            a, b = set(p), {frozenset(x) for x in q}
            r = lib.finest_common(a, b)
            if a != p or b != {frozenset(x) for x in q}:
                tr.append({'op': 'refused', 'raised': 0})
            qs.append([sorted(x) for x in q])
            res.append(sorted([sorted(x) for x in r]))
        tr.append({'op': 'finest', 'dirs': els, 'p': [sorted(x) for x in case['p']], 'qs': qs, 'res': res})
        return tr
    if case['t'] == 'misc':
        f = F('x*w')
        tr.append({'op': 'same', 'a': [f.dirs, F('1').dirs, F('y', dirs=[0, 1, 2]).dirs, F('v', dim=5).dirs],
                   'b': [[0, 1, 2, 3], [], [0, 1, 2], [0, 1, 2, 3, 4]]})
        tr.append({'op': 'refused', 'raised': raises(lambda: F('y', dirs=[0]))})
        tr.append({'op': 'refused', 'raised': raises(lambda: F('y', dirs=[1, 0]))})
        tr.append({'op': 'refused', 'raised': raises(lambda: F.tensorize([F('x', dirs=[0]), F('x*y', dirs=[0, 1])]))})
        x = F.xyz[0]
        s = F.sanitize(0.5 * x + 0.25 * x ** 2 + 1e-16 * x ** 3 + 3)
        tr.append({'op': 'same', 'a': [str(s.coeff(x, k)) for k in range(4)], 'b': ['3', '1/2', '1/4', '0']})
        tr.append({'op': 'same', 'a': [int(F('x1*x3') == F('y*w')), int(F('x', dirs=[0]) == F('x', dirs=[0, 1])),
                                      int(F('x') == F('y')), int(F('x + 1') == F('1 + x'))], 'b': [1, 0, 0, 1]})
        return tr
    rr = random.Random(case['seed'])
    dirs = case['dirs']
    codes, evs = [], []
    pts = points(rr, dirs, 6)
    for _ in range(case['n']):
        ts, seen = [], []
        for _ in range(rr.choice([1, 1, 2, 3])):
            t = term(rr, dirs)
            k = (t['e'], t['s'], t['p'], sorted(t['m']))
            if k not in seen:
                seen.append(k)
                ts.append(t)
        nota = rr.choice(['xyz', 'sub', 'str', 'strsub'])
        var = F.x_sub if 'sub' in nota else F.xyz
        u = unit(rr)
        un = float(u)
        e = sum((u * to_sym(t, var) for t in ts), sympy.Integer(0))
        f = F(str(e) if 'str' in nota else e, dirs=list(dirs))
        base = {'terms': ts, 'dirs': [int(d) for d in f.dirs], 'wantdirs': dirs, 'pts': pts}
        tr.append(dict(base, op='value', res=values(f.sym, pts, F.x_sub, un)))
        tr.append(dict(base, op='value', res=values(f.as_xyz(), pts, F.xyz, un)))
        codes.append(f.ccode())
        evs.append((base, un))
        # splitting, both forms
        parts = []
        for term_ in f.split(legacy=False):
            gs = []
            for g, h in term_.items():
                if g == frozenset():
                    continue
                vs = [F.x_sub.index(v) for v in h.sym.free_symbols]
                gs.append({'dirs': sorted(g), 'vars': sorted(vs), 'vals': values(h.sym, pts, F.x_sub)})
            c = term_[frozenset()].sym
            parts.append({'c': as_int(float(c) / un) if not c.free_symbols else 2000000001, 'groups': gs})
        tr.append(dict(base, op='split', parts=parts))
        parts = []
        for term_ in f.split():
            c, fs = term_[-1], term_[:-1]
            gs = []
            for h in fs:
                gs.append({'dirs': [int(d) for d in h.dirs], 'vars': sorted(F.x_sub.index(v) for v in h.sym.free_symbols),
                           'vals': values(h.sym, pts, F.x_sub)})
            parts.append({'c': as_int(float(c) / un), 'groups': gs})
        tr.append(dict(base, op='split', parts=parts))
        # projections on every set of directions (or some of them)
        subs = [list(s) for k in range(1, len(dirs) + 1) for s in itertools.combinations(dirs, k)]
        for on in (subs if len(subs) < 8 else rr.sample(subs, 7)):
            try:
                g = f.project(on if len(on) > 1 or rr.random() < .5 else on[0])
                res, ra = values(g.sym, pts, F.x_sub, un if dirs[0] in on else 1.), 0
                if [int(d) for d in g.dirs] != on:
                    ra = 2
            except ValueError:
                res, ra = [], 1
            tr.append(dict(base, op='project', on=on, raised=ra, res=res))
        # arithmetic
        ts2 = [term(rr, dirs)]
        g = F(u * to_sym(ts2[0], F.xyz), dirs=list(dirs))
        tr.append(dict(base, op='arith', what='add', a=ts, b=ts2, res=values((f + g).sym, pts, F.x_sub, un)))
        small = [p for p in pts if max(p) < 3]
        if all(sum(abs(v) for v in [math.prod([max(1, p[d]) ** (t['e'][d] + u['e'][d]) for d in dirs])]) < 1e4
               for p in small for t in ts for u in ts2) and len(ts) == 1 and not ts[0]['m'] and not ts2[0]['m']:
            tr.append({'op': 'arith', 'what': 'mul', 'a': ts, 'b': ts2, 'dirs': dirs, 'pts': small,
                       'res': values((f * g).sym, small, F.x_sub, un * un)})
            nz = [p for p in small if all(p[d] for d in dirs)]
            tr.append({'op': 'arith', 'what': 'div', 'a': ts, 'b': ts2, 'dirs': dirs, 'pts': nz,
                       'res': values((f * g / g).sym, nz, F.x_sub, un)})
        if len(dirs) > 1:
            k = rr.randint(1, len(dirs) - 1)
            da = sorted(rr.sample(dirs, k))
            db = [d for d in dirs if d not in da]
            a, b = [term(rr, da)], [term(rr, db)]
            for t in a + b:
                t['m'] = []
            h = F.tensorize([F(to_sym(a[0], F.xyz), dirs=da), F(to_sym(b[0], F.xyz), dirs=db)])
            tr.append({'op': 'tensorf', 'a': a, 'b': b, 'da': da, 'db': db, 'dirs': [int(d) for d in h.dirs],
                       'pts': pts, 'res': values(h.sym, pts, F.x_sub)})
    # the generated C expressions, compiled together
    sc = os.environ['VERIF_SCRATCH']
    src, so = os.path.join(sc, 'c%d.cpp' % case['seed']), os.path.join(sc, 'c%d.so' % case['seed'])
    with open(src, 'w') as fd:
        fd.write('#include <cmath>\n#include <vector>\nusing namespace std;\n')
        for i, c in enumerate(codes):
            fd.write('extern "C" double f%d(double *v) { return %s; }\n' % (i, c))
    p = subprocess.run(['g++', '-O0', '-shared', '-fPIC', src, '-o', so], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if p.returncode:
        tr.append({'op': 'badcode', 'msg': p.stdout.decode()[-500:], 'codes': codes})
        return tr
    dll = ctypes.CDLL(so)
    for i, (base, un) in enumerate(evs):
        fn = getattr(dll, 'f%d' % i)
        fn.restype = ctypes.c_double
        res = []
        for pt in base['pts']:
            v = (ctypes.c_double * 5)(*[float(pt[d]) for d in dirs])
            res.append(as_int(fn(v) / un, 1e-5))
        tr.append(dict(base, op='value', res=res))
    os.unlink(src)
    os.unlink(so)
    return tr
