"""make_grid and SplineActivation."""
import numpy as np
from .common import *
import flax.linen as nn
from magpi.spline import make_grid, SplineActivation, basis

INFO = dict(bounds="make_grid: any start < stop, 2-8 nodes, powers 1, 2, 3 and any power > 0 (uninterpreted for the interior nodes); activation: any input, coefficients and grid, degrees 1-3, 5-7 nodes, scalar / feature vector / batch inputs, fixed and trainable grids, any base activation (uninterpreted)",
            outside="more nodes and features")


def opact():
    f = ofun("act", 1)
    return lambda x: f(jnp.asarray(x)[..., None])


def POW(d, args, t):
    """facts about b^e"""
    b, e = args
    return [tm.implies(P(b), P(t)), tm.implies(AND(Z(b), P(e)), Z(t)), tm.implies(AND(P(b), tm.le(b, tm.ONE), P(e)), tm.le(t, tm.ONE))] if not d else []


def harnesses():
    out = []
    I = dict(a=Arr(), b=Arr())
    lt = lambda i: [tm.lt(i.a, i.b)]
    smp = lambda g: (lambda a: dict(a=a, b=a + g.uniform(0.5, 2)))(g.uniform(-1, 1))
    for n in (2, 3, 4, 5, 8):
        for p in (1.0, 2.0, 3.0):
            def cl(i, o, n=n, p=p):
                c = [("number of nodes", tm.boolc(np.shape(o) == (n,)))]
                if np.shape(o) != (n,):
                    return c
                mid = (i.a + i.b) / 2
                half = (i.b - i.a) / 2
                for k in range(n):
                    u = Fraction(2 * k, n - 1) - 1
                    v = abs(u) ** int(p) * (1 if u > 0 else -1 if u < 0 else 0)
                    c.append((f"node {k}", EQ(o[k], mid + half * v)))
                return c + [("starts at start", EQ(o[0], i.a)), ("ends at stop", EQ(o[-1], i.b)), ("increases", AND(LT(o[:-1], o[1:]))),
                            ("symmetric", AND(*[EQ(o[k] + o[n - 1 - k], i.a + i.b) for k in range(n)]))]
            out.append(H(f"make_grid {n} nodes power {p:g}", I, lambda i, n=n, p=p: make_grid(i.a, i.b, p, n), cl, assume=lt, sample=smp))
    for n in (3, 4, 5):
        def cl(i, o, n=n):
            return [("number of nodes", tm.boolc(np.shape(o) == (n,))), ("starts at start", EQ(o[0], i.a)), ("ends at stop", EQ(o[-1], i.b)),
                    ("symmetric", AND(*[EQ(o[k] + o[n - 1 - k], i.a + i.b) for k in range(n)])), ("inside", AND(LE(i.a, o), LE(o, i.b)))]
        out.append(H(f"make_grid {n} nodes any power", dict(I, p=pos()), lambda i, n=n: make_grid(i.a, i.b, i.p, n), cl, assume=lt, sample=smp, axioms=dict(pow=POW)))

    for deg, n in ((1, 4), (2, 5), (3, 6), (3, 7)):
        m = n - deg - 1
        mk = lambda deg=deg, n=n, **kw: SplineActivation(nodes=n, node_min=-1.5, node_max=2.0, degree=deg, grid_power=2.0, activation=opact(), **kw)

        def fixed(i, deg=deg, n=n, mk=mk):
            g = make_grid(-1.5, 2.0, 2.0, n)
            return dict(y=mk().apply(dict(params=dict(coefs=i.c)), i.x), b=[basis(i.x[..., k], g, degree=deg) for k in range(2)])

        def cl(i, o, m=m):
            c = [("shape", tm.boolc(np.shape(o["y"]) == np.shape(i.x)))]
            xs = i.x if i.x.ndim == 2 else i.x[None]
            ys = o["y"] if i.x.ndim == 2 else o["y"][None]
            for r in range(xs.shape[0]):
                for k in range(2):
                    B = o["b"][k][r] if i.x.ndim == 2 else o["b"][k]
                    c.append((f"sample {r} feature {k}", EQ(ys[r, k], app("act", [xs[r, k]]) + dot(B, i.c[k]))))
            return c
        sm = lambda g: dict(x=g.uniform(-1.5, 2, 2))
        out.append(H(f"activation degree {deg} {n} nodes", dict(x=Arr(2), c=Arr(2, m)), fixed, cl))
        if deg < 3:
            out.append(H(f"activation degree {deg} {n} nodes, batch", dict(x=Arr(2, 2), c=Arr(2, m)), fixed, cl))

        def train(i, deg=deg, mk=mk):
            return dict(y=mk(parameterize_grid=True).apply(dict(params=dict(coefs=i.c), grids=dict(grid=i.t)), i.x), b=[basis(i.x[..., k], i.t[k], degree=deg) for k in range(2)])
        if deg < 3:
            out.append(H(f"trainable grid degree {deg} {n} nodes", dict(x=Arr(2), c=Arr(2, m), t=Arr(2, n)), train, cl,
                         assume=lambda i, n=n: [tm.lt(i.t[a, j], i.t[a, j + 1]) for a in range(2) for j in range(n - 1)],
                         sample=lambda g, n=n: dict(t=np.cumsum(g.uniform(0.2, 1, (2, n)), axis=1) - 2)))

        def outside(i, mk=mk):
            return mk().apply(dict(params=dict(coefs=i.c)), i.x)
        out.append(H(f"degree {deg} {n} nodes: base activation off the grid", dict(x=Arr(2), c=Arr(2, m)), outside,
                     lambda i, o: [(f"feature {k}", EQ(o[k], app("act", [i.x[k]]))) for k in range(2)],
                     assume=lambda i: [OR(tm.lt(t, tm.const(Fraction(-3, 2))), tm.le(tm.const(Fraction(2)), t)) for t in i.x],
                     sample=lambda g: dict(x=np.array([2 + g.uniform(0, 1), -1.5 - g.uniform(0.1, 1)]))))
        out.append(H(f"degree {deg} {n} nodes: initial spline is zero", dict(key=Key(), x=Arr(2)),
                     lambda i, mk=mk: (lambda M: (M.apply(M.init(i.key, i.x), i.x), M.init(i.key, i.x)["params"]["coefs"]))(mk()),
                     lambda i, o, m=m: [("base activation", SAME(o[0], oarr([app("act", [t]) for t in i.x]))), ("one coefficient per basis function and feature", tm.boolc(np.shape(o[1]) == (2, m)))]))
        out.append(H(f"degree {deg} {n} nodes: initial trainable grid", dict(key=Key(), x=Arr(3)),
                     lambda i, n=n, mk=mk: (mk(parameterize_grid=True).init(i.key, i.x)["grids"]["grid"], make_grid(-1.5, 2.0, 2.0, n)),
                     lambda i, o, n=n: [("one grid per feature", tm.boolc(np.shape(o[0]) == (3, n)))] + [(f"feature {k}", SAME(o[0][k], o[1])) for k in range(3)]))
    out.append(H("scalar input", dict(x=Arr(), c=Arr(1, 2)), lambda i: (SplineActivation(nodes=4, degree=1, activation=opact()).apply(dict(params=dict(coefs=i.c)), i.x), basis(i.x, make_grid(-3.0, 3.0, 2.0, 4), degree=1)),
                 lambda i, o: [("value", SAME(o[0], oarr([app("act", [i.x]) + dot(o[1], i.c[0])])))]))
    out.append(H("defaults", dict(key=Key(), x=Arr(1)), lambda i: (lambda M: (lambda v: (v["params"]["coefs"], M.apply(v, i.x)))(M.init(i.key, i.x)))(SplineActivation()),
                 lambda i, o: [("14 nodes, degree 3", tm.boolc(np.shape(o[0]) == (1, 10))), ("tanh", EQ(o[1], oarr([tm.fn("tanh", i.x[0])])))]))
    return out
