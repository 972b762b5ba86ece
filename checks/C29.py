"""Boundary transformations: onto the boundary, pointwise, polylines by arc length."""
import itertools
import numpy as np
from .common import *
from .C28 import tup
from magpi.domain import Hypercube, Parallelogram, Sphere, Disk, transform_hypercube_bnd, transform_polyline, transform_circle_bnd, transform_sphere_bnd

INFO = dict(bounds="all parameters in [0,1) (and [1,2), which wrap around), any bounds / corners / radii / centres; hypercubes in 1-3 dimensions, parallelograms in 2-3 dimensions, polylines of 1-4 segments in 2-3 dimensions; single parameters and batches",
            outside="higher dimensions, longer polylines")


def on_boundary(i, p):
    n = len(i.lb)
    ub = i.lb + i.e
    ins = AND(LE(i.lb, p), LE(p, ub))
    face = OR(*[tm.eq(p[k], i.lb[k]) for k in range(n)], *[tm.eq(p[k], ub[k]) for k in range(n)])
    return [("in the box", ins), ("on a face", face)]


def piece(i, n, f, y):
    """every parameter lies in exactly one of these 2n pieces of the parameter range"""
    A = [jnp.prod(jnp.stack([i.e[j] for j in range(n) if j != k])) for k in range(n)] * 2
    y0 = y if n == 2 else y[0]
    s0 = (sum(A[:f]) + y0 * A[f]) / sum(A)
    return s0 if n == 2 else jnp.concatenate([s0[None], y[1:]])


def harnesses():
    out = []
    # ------------------------------------------------------------ hypercubes
    for n in (1, 2, 3):
        E = dict(lb=Arr(n), e=pos(n))
        hb = lambda i, s: Hypercube(tup(i.lb), tup(i.lb + i.e)).transform_bnd(s)
        sh = () if n == 2 else (1,) if n == 1 else (n - 1,)
        S = Arr(*sh, lo=0, hi=1, hi_strict=True)
        if n == 1:
            out.append(H("hypercube 1D", dict(s=S, **E), lambda i, hb=hb: hb(i, i.s), lambda i, o: [("shape", tm.boolc(np.shape(o) == (1,)))] + on_boundary(i, o)))
        reach = lambda i, o, n=n: [(f"face {['lower', 'upper'][u]} {k} is reached", CANA(i, AND(tm.eq(o[k], i.lb[k] + i.e[k] if u else i.lb[k]), *[AND(tm.lt(i.lb[j], o[j]), tm.lt(o[j], i.lb[j] + i.e[j])) for j in range(n) if j != k])))
                                   for k in range(n) for u in (0, 1)]
        out.append(H(f"hypercube {n}D reaches every face", dict(s=S, **E), lambda i, hb=hb: hb(i, i.s), reach, cover=lambda n=n: faces(n)))
        if n == 1:
            continue
        for f in range(2 * n):
            # every parameter lies in one of these pieces of [0,1)
            Y = dict(y=S, **E)
            par = lambda i, n=n, f=f: piece(i, n, f, i.y)
            out.append(H(f"hypercube {n}D piece {f}", Y, lambda i, hb=hb, par=par: hb(i, par(i)),
                         lambda i, o, n=n: [("shape", tm.boolc(np.shape(o) == (n,)))] + on_boundary(i, o)))
            out.append(H(f"hypercube {n}D piece {f} wrap around", Y, lambda i, hb=hb, par=par: (hb(i, par(i) + 1), hb(i, par(i))), lambda i, o: [("periodic", SAME(o[0], o[1]))]))
            # two parameters at once, in the same and in different pieces
            for g in {2: (f, (f + 1) % 4, (f + 2) % 4), 3: ((f + 2) % 6,)}[n]:
                out.append(H(f"hypercube {n}D batch of pieces {g} and {f}", dict(Y, r=S),
                             lambda i, hb=hb, n=n, f=f, g=g: (lambda s: dict(b=hb(i, s), c=hb(i, s[:, None]) if n == 2 else hb(i, s[None]), s=[hb(i, s[k]) for k in range(2)]))(jnp.stack([piece(i, n, g, i.r), piece(i, n, f, i.y)])),
                             lambda i, o, n=n: [("shape", tm.boolc(np.shape(o["b"]) == (2, n) and np.shape(o["c"]) == ((2, n) if n == 2 else (1, 2, n))))]
                             + [(f"parameter {k}", AND(SAME(o["b"][k], o["s"][k]), SAME(np.asarray(o["c"]).reshape(2, n)[k], o["s"][k]))) for k in range(2)]))
            if n == 2:
                for g in range(f, 4):
                    out.append(H(f"hypercube 2D pieces {f} and {g} one to one", dict(Y, r=Arr(lo=0, lo_strict=True, hi=1, hi_strict=True)), lambda i, hb=hb, f=f, g=g: (hb(i, piece(i, 2, f, i.y)), hb(i, piece(i, 2, g, i.r))),
                                 lambda i, o, f=f, g=g: [("different parameters, different points", NOT(AND(EQ(o[0], o[1]), NOT(corner(i, o[0])))) if f != g else IMP(EQ(o[0], o[1]), EQ(i.y, i.r)))]))
    for h in out:
        h.saturate = True
    # ------------------------------------------------------------ polylines
    for n, m in ((2, 1), (2, 2), (3, 2), (2, 3), (2, 4)):
        PT = dict(p=Arr(m + 1, n))
        seg = lambda i, m=m: [SQRT(sumsq(i.p[k + 1] - i.p[k])) for k in range(m)]
        nz = lambda i, m=m: [P(sumsq(i.p[k + 1] - i.p[k])) for k in range(m)]
        f = lambda i, s, m=m: transform_polyline(s, tuple(i.p[k] for k in range(m + 1)))
        for k in range(m):
            # parameter which lies on segment k at fraction q
            def fn(i, k=k, m=m, f=f):
                L = [jnp.linalg.norm(i.p[a + 1] - i.p[a]) for a in range(m)]
                s = (sum(L[:k]) + i.q * L[k]) / sum(L)
                return f(i, s)
            last = k == m - 1
            out.append(H(f"polyline {n}D {m} segments: segment {k}", dict(PT, q=Arr(lo=0, lo_strict=True, hi=1, hi_strict=True)), fn,
                         lambda i, o, k=k: [("arc length position", SAME(o, i.p[k] + i.q * (i.p[k + 1] - i.p[k])))], assume=nz, saturate=m > 2, tier="quick" if m <= 3 else "thorough"))
        out.append(H(f"polyline {n}D {m} segments: start", dict(PT), lambda i, f=f: f(i, jnp.zeros(())), lambda i, o: [("first point", SAME(o, i.p[0]))], assume=nz))
        if m <= 2:
            out.append(H(f"polyline {n}D {m} segments: batch and wrap around", dict(PT, s=Arr(2, lo=0, hi=1, hi_strict=True)), lambda i, f=f: dict(b=f(i, i.s), s=[f(i, i.s[k]) for k in range(2)], w=f(i, i.s[0] + 1)),
                         lambda i, o, n=n: [("shape", tm.boolc(np.shape(o["b"]) == (2, n)))] + [(f"parameter {k}", SAME(o["b"][k], o["s"][k])) for k in range(2)] + [("periodic", SAME(o["w"], o["s"][0]))], assume=nz))
    # ------------------------------------------------------------ parallelograms
    for n in (2, 3):
        cor = dict(a=Arr(n), b=Arr(n), c=Arr(n))
        pg = lambda i, s: Parallelogram(tup(i.a), tup(i.b), tup(i.c)).transform_bnd(s)
        nz = lambda i: [P(sumsq(i.b - i.a)), P(sumsq(i.c - i.a))]
        for k in range(4):
            def fn(i, k=k, pg=pg):
                e, f = jnp.linalg.norm(i.b - i.a), jnp.linalg.norm(i.c - i.a)
                L = [e, f, e, f]
                return pg(i, (sum(L[:k]) + i.q * L[k]) / sum(L))
            def cl(i, o, k=k):
                V = [i.a, i.b, i.b + i.c - i.a, i.c, i.a]
                return [("walks around the corners a, b, b+c-a, c", SAME(o, V[k] + i.q * (V[k + 1] - V[k])))]
            out.append(H(f"parallelogram {n}D side {k}", dict(cor, q=Arr(lo=0, lo_strict=True, hi=1, hi_strict=True)), fn, cl, assume=nz, saturate=True))
    # ------------------------------------------------------------ circles and spheres
    D = dict(r=pos(), o=Arr(2))
    S1 = Arr(lo=0, hi=1, hi_strict=True)
    d2 = lambda i, o: sumsq(o - i.o)
    cb = lambda i, s: Disk(i.r, tup(i.o)).transform_bnd(s)
    out.append(H("circle", dict(s=S1, **D), lambda i: cb(i, i.s), lambda i, o: [("shape", tm.boolc(np.shape(o) == (2,))), ("on the circle", EQ(d2(i, o), i.r * i.r))]))
    # whichever number of turns the parameter makes, one of them passes every angle
    out.append(H("circle, every point", dict(a=S1, **D), lambda i: jnp.stack([cb(i, i.a / k) for k in (1, 2, 3, 4)]),
                 lambda i, o: [("reached", OR(*[AND(SAME(o[k], oarr([i.o[0] + i.r * cos(2 * tm.PI * i.a), i.o[1] + i.r * sin(2 * tm.PI * i.a)]))) for k in range(4)]))]))
    out.append(H("circle batch", dict(s=Arr(3, lo=0, hi=1, hi_strict=True), **D), lambda i: dict(b=cb(i, i.s), c=cb(i, i.s[:, None]), s=[cb(i, i.s[k]) for k in range(3)], t=transform_circle_bnd(i.s, i.r, i.o)),
                 lambda i, o: [("shape", tm.boolc(np.shape(o["b"]) == (3, 2) and np.shape(o["c"]) == (3, 2)))] + [(f"parameter {k}", AND(SAME(o["b"][k], o["s"][k]), SAME(o["c"][k], o["s"][k]))) for k in range(3)] + [("function form", SAME(o["t"], o["b"]))]))
    out.append(H("circle wrap around", dict(s=S1, **D), lambda i: (cb(i, i.s + 1), cb(i, i.s)), lambda i, o: [("periodic", SAME(o[0], o[1]))]))
    S3 = dict(r=pos(), o=Arr(3))
    sb = lambda i, s: Sphere(i.r, tup(i.o)).transform_bnd(s)
    X2 = Arr(2, lo=0, hi=1, hi_strict=True)
    out.append(H("sphere", dict(s=X2, **S3), lambda i: sb(i, i.s), lambda i, o: [("shape", tm.boolc(np.shape(o) == (3,))), ("on the sphere", EQ(d2(i, o), i.r * i.r))]))
    out.append(H("sphere, every point", dict(a=S1, u=Arr(lo=-1, hi=1, hi_strict=True), **S3), lambda i: sb(i, jnp.stack([(i.u + 1) / 2, i.a])),
                 lambda i, o: [("reached", SAME(o, oarr([i.o[0] + i.r * cos(2 * tm.PI * i.a) * SQRT(1 - i.u * i.u), i.o[1] + i.r * sin(2 * tm.PI * i.a) * SQRT(1 - i.u * i.u), i.o[2] + i.r * i.u])))]))
    out.append(H("sphere batch", dict(s=Arr(3, 2, lo=0, hi=1, hi_strict=True), **S3), lambda i: dict(b=sb(i, i.s), s=[sb(i, i.s[k]) for k in range(3)], t=transform_sphere_bnd(i.s, i.r, i.o)),
                 lambda i, o: [("shape", tm.boolc(np.shape(o["b"]) == (3, 3)))] + [(f"parameter {k}", SAME(o["b"][k], o["s"][k])) for k in range(3)] + [("function form", SAME(o["t"], o["b"]))]))
    out.append(H("sphere wrap around", dict(s=X2, **S3), lambda i: (sb(i, i.s + 1), sb(i, i.s)), lambda i, o: [("periodic", SAME(o[0], o[1]))]))
    return out


def corner(i, p):
    at = [OR(tm.eq(p[k], i.lb[k]), tm.eq(p[k], i.lb[k] + i.e[k])) for k in range(len(i.lb))]
    return AND(*at)


def CANA(i, cond):
    """some parameter of some box leads there"""
    if getattr(i, "ctx", None) is None:
        return tm.TRUE
    from engine.solve import Prover, Stats
    pr = Prover([], [], {}, Stats(), 5, 5)
    r, _ = pr.query(list(i.ctx.assumptions) + [P(t) for t in i.e] + [cond], 10.0, "struct", purpose="feas")
    return tm.boolc(r != "unsat")


def faces(n):
    lb, ub = (-0.5, 1.0, 2.0)[:n], (1.5, 1.5, 5.0)[:n]
    g = np.random.default_rng(0)
    s = jnp.asarray(g.uniform(0, 1, (2000,) if n == 2 else (2000, max(n - 1, 1))))
    p = np.asarray(Hypercube(lb, ub).transform_bnd(s))
    for k in range(n):
        for nm, v in (("lower", lb), ("upper", ub)):
            if not np.isclose(p[:, k], v[k]).any():
                return f"no parameter out of 2000 is mapped to the {nm} face of axis {k}"
    return None
