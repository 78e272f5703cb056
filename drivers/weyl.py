"""Conversion of sympy operators and functions to the terms of spec/Weyl.tla."""
from drivers.common import BAD, hermipy, as_int


def poly_terms(expr, vs, scale=1):
    """sympy polynomial -> terms of order 0"""
    import sympy
    if scale != 1:
        expr = sympy.simplify(sympy.expand(expr) * scale)
    expr = sympy.expand(expr)
    D = len(vs)
    if expr == 0:
        return []
    try:
        p = sympy.Poly(expr, *vs)
    except sympy.PolynomialError:
        return [{'c': BAD, 'f': [['x', 0]] * D, 'd': [0] * D}]
    out = []
    for e, c in p.terms():
        try:
            v = as_int(float(c), 1e-7)
        except TypeError:
            v = BAD
        out.append({'c': v, 'f': [['x', int(a)] for a in e], 'd': [0] * D})
    return out


def split_terms(op, scale=1):
    """the library's own splitting of the operator"""
    F = hermipy().Function
    vs = [F.x_sub[d] for d in op.dirs]
    out = []
    for m, c in op.split().items():
        if [int(d) for d in c.dirs] != [int(d) for d in op.dirs]:
            return [{'c': BAD, 'f': [['x', 0]] * len(vs), 'd': [0] * len(vs)}]
        for t in poly_terms(c.sym, vs, scale):
            out.append(dict(t, d=[int(k) for k in m]))
    return out


def act(op, u, vs, scale=1):
    """apply by substitution in sympy (independent of Operator.__call__)"""
    import sympy
    un = op.f(*vs)
    e = op.sym.subs(un, u).doit() if op.sym != 0 else sympy.Integer(0)
    return poly_terms(e, vs, scale)


def tests(rr, op, D, n=3, deg=3, scale=1):
    import sympy
    F = hermipy().Function
    vs = [F.x_sub[d] for d in op.dirs]
    out = []
    for _ in range(n):
        on = [rr.randint(0, deg) for _ in range(D)]
        u = sympy.Integer(1)
        for v, a in zip(vs, on):
            u *= v ** a
        out.append({'on': on, 'res': act(op, u, vs, scale)})
    return out
