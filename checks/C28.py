"""Interior transformations: into and onto the domain; support."""
import numpy as np
from .common import *
from magpi.domain import Hypercube, Parallelogram, Sphere, Disk, Annulus, transform_hypercube, transform_triangle, transform_circle, transform_annulus, transform_sphere

INFO = dict(bounds="all points of the closed unit cube (and of [1,2) where samples wrap around), any bounds lb < ub / corner points / radii / centres; hypercubes in 1-3, parallelograms and triangles in 2-3 dimensions, disks, annuli, balls; single points and batches",
            outside="higher dimensions; samples outside [0,2)")


def U(*shape):
    return Arr(*shape, lo=0, hi=1)


def box(n):
    return dict(lb=Arr(n), ub=Arr(n))


def boxs(n):
    def s(g):
        lb = g.uniform(-1, 1, n)
        return dict(lb=lb, ub=lb + g.uniform(0.3, 2, n))
    return s


def ordered(i):
    return [tm.lt(a, b) for a, b in zip(np.atleast_1d(i.lb), np.atleast_1d(i.ub))]


def tup(a):
    return tuple(a[k] for k in range(a.shape[0]))


def batch_h(name, ins, f, d, **kw):
    """batches (one and two leading axes) are mapped point by point"""
    return [H(f"{name}: batch {list(sh)}", dict(ins, x=U(*sh, d)), lambda i, sh=sh: dict(b=f(i, i.x), s=[f(i, i.x[k]) for k in np.ndindex(*sh)]),
              lambda i, o, sh=sh: [("shape", tm.boolc(np.shape(o["b"]) == sh + np.shape(o["s"][0])))] + [(f"point {list(k)}", SAME(o["b"][k], o["s"][q])) for q, k in enumerate(np.ndindex(*sh))], **kw)
            for sh in ((3,), (2, 1))]


def harnesses():
    out = []
    # ------------------------------------------------------------ hypercubes
    for n in (1, 2, 3):
        hc = lambda i: Hypercube(tup(i.lb), tup(i.ub))
        t = lambda i, x: hc(i).transform(x)
        out.append(H(f"hypercube {n}D", dict(x=U(n), **box(n)), lambda i, t=t: t(i, i.x),
                     lambda i, o: [("affine", SAME(o, i.lb + i.x * (i.ub - i.lb))), ("inside", AND(LE(i.lb, o), LE(o, i.ub)))], assume=ordered, sample=boxs(n)))
        out.append(H(f"hypercube {n}D onto", dict(y=Arr(n), **box(n)), lambda i, t=t: t(i, (i.y - i.lb) / (i.ub - i.lb)),
                     lambda i, o: [("every point is reached", SAME(o, i.y))], assume=lambda i: ordered(i) + [LE(i.lb, i.y), LE(i.y, i.ub)],
                     sample=lambda g, n=n: (lambda lb, w: dict(lb=lb, ub=lb + w, y=lb + g.uniform(0, 1, n) * w))(g.uniform(-1, 1, n), g.uniform(0.3, 2, n))))
        out.append(H(f"hypercube {n}D wrap around", dict(x=Arr(n, lo=1, lo_strict=True, hi=2, hi_strict=True), **box(n)), lambda i, t=t: (t(i, i.x), t(i, i.x - 1)),
                     lambda i, o: [("periodic", SAME(o[0], o[1]))], assume=ordered, sample=boxs(n)))
        out += batch_h(f"hypercube {n}D", box(n), t, n, assume=ordered, sample=boxs(n))
        out.append(H(f"hypercube {n}D support", box(n), lambda i: (hc(i).support(), hc(i).dimension),
                     lambda i, o, n=n: [("product of the edges", EQ(o[0], tm.mul(*[b - a for a, b in zip(i.lb, i.ub)]) if n > 1 else i.ub[0] - i.lb[0])), ("dimension", EQ(o[1], n))], assume=ordered, sample=boxs(n)))
    out.append(H("hypercube: bounds of different length are refused", dict(a=Arr(2), b=Arr(3)), lambda i: raised(lambda: Hypercube(tup(i.a), tup(i.b))), lambda i, o: [("refused", o)]))
    # ------------------------------------------------------------ parallelograms and triangles
    for n in (2, 3):
        cor = dict(a=Arr(n), b=Arr(n), c=Arr(n))
        pg = lambda i: Parallelogram(tup(i.a), tup(i.b), tup(i.c))
        t = lambda i, x: pg(i).transform(x)
        out.append(H(f"parallelogram {n}D", dict(x=U(2), **cor), lambda i, t=t: t(i, i.x), lambda i, o: [("a + x (b-a) + y (c-a)", SAME(o, i.a + i.x[0] * (i.b - i.a) + i.x[1] * (i.c - i.a)))]))
        out.append(H(f"parallelogram {n}D wrap around", dict(x=Arr(2, lo=1, lo_strict=True, hi=2, hi_strict=True), **cor), lambda i, t=t: (t(i, i.x), t(i, i.x - 1)),
                     lambda i, o: [("periodic", SAME(o[0], o[1]))]))
        out += batch_h(f"parallelogram {n}D", cor, t, 2)
        gram = lambda i: sumsq(i.b - i.a) * sumsq(i.c - i.a) - dot(i.b - i.a, i.c - i.a) ** 2
        out.append(H(f"parallelogram {n}D support", cor, lambda i: (pg(i).support(), pg(i).dimension),
                     lambda i, o, n=n: [("area", AND(EQ(o[0] * o[0], gram(i)), LE(0, o[0]))), ("dimension", EQ(o[1], n))], assume=lambda i: [P(gram(i))]))
        tr = lambda i, x: transform_triangle(x, i.a, i.b, i.c)
        fold = lambda x: [tm.ite(tm.lt(tm.ONE, x[0] + x[1]), 1 - t, t) for t in x]
        cor2 = dict(cor)
        nd = dict(x=Arr(2, lo=0, hi=1, hi_strict=True), **cor)

        def bary(i, o, n=n):
            # o = a + u (b-a) + v (c-a) with u, v >= 0, u+v <= 1, in terms of determinants (2D)
            e, f, p = i.b - i.a, i.c - i.a, o - i.a
            D = e[0] * f[1] - e[1] * f[0]
            u = (p[0] * f[1] - p[1] * f[0]) / D
            v = (e[0] * p[1] - e[1] * p[0]) / D
            return [("inside", AND(LE(0, u), LE(0, v), LE(u + v, 1)))]
        if n == 2:
            out.append(H("triangle 2D inside", nd, lambda i, tr=tr: tr(i, i.x), bary, assume=lambda i: [NOT(Z((i.b - i.a)[0] * (i.c - i.a)[1] - (i.b - i.a)[1] * (i.c - i.a)[0]))]))
        out.append(H(f"triangle {n}D lower half", nd, lambda i, tr=tr: tr(i, i.x), lambda i, o: [("affine", SAME(o, i.a + i.x[0] * (i.b - i.a) + i.x[1] * (i.c - i.a)))],
                     assume=lambda i: [LE(i.x[0] + i.x[1], 1)], sample=lambda g: dict(x=g.uniform(0, 0.5, 2))))
        out.append(H(f"triangle {n}D upper half", nd, lambda i, tr=tr: tr(i, i.x), lambda i, o: [("folded back", SAME(o, i.a + (1 - i.x[0]) * (i.b - i.a) + (1 - i.x[1]) * (i.c - i.a)))],
                     assume=lambda i: [LT(1, i.x[0] + i.x[1])], sample=lambda g: dict(x=g.uniform(0.5, 1, 2))))
        out.append(H(f"triangle {n}D wrap around", dict(x=Arr(2, lo=0, hi=1, hi_strict=True), **cor), lambda i, tr=tr: (tr(i, i.x + 1), tr(i, i.x)), lambda i, o: [("periodic", SAME(o[0], o[1]))]))
        for sh in ((3,), (2, 1)):
            out.append(H(f"triangle {n}D: batch {list(sh)}", dict(cor, x=Arr(*sh, 2, lo=0, hi=1, hi_strict=True)), lambda i, sh=sh: dict(b=tr(i, i.x), s=[tr(i, i.x[k]) for k in np.ndindex(*sh)]),
                         lambda i, o, sh=sh, n=n: [("shape", tm.boolc(np.shape(o["b"]) == sh + (n,)))] + [(f"point {list(k)}", SAME(o["b"][k], o["s"][q])) for q, k in enumerate(np.ndindex(*sh))]))
    # ------------------------------------------------------------ disks, annuli
    X2 = Arr(2, lo=0, hi=1, hi_strict=True)
    TP = 2 * tm.PI
    dk = lambda i: Disk(i.r, tup(i.o))
    an = lambda i: Annulus(i.r1, i.r2, tup(i.o))
    ann_ok = lambda i: [tm.lt(i.r1, i.r2)]
    anns = lambda g: (lambda r: dict(r1=r, r2=r + g.uniform(0.2, 1)))(g.uniform(0, 1))
    D = dict(r=pos(), o=Arr(2))
    A = dict(r1=Arr(lo=0), r2=pos(), o=Arr(2))
    d2 = lambda i, o: sumsq(o - i.o)
    out.append(H("disk inside", dict(x=X2, **D), lambda i: dk(i).transform(i.x), lambda i, o: [("inside", LE(d2(i, o), i.r * i.r)), ("radius", EQ(d2(i, o), i.x[1] * i.r * i.r))]))
    out.append(H("annulus inside", dict(x=X2, **A), lambda i: an(i).transform(i.x), lambda i, o: [("inside", AND(LE(i.r1 * i.r1, d2(i, o)), LE(d2(i, o), i.r2 * i.r2)))], assume=ann_ok, sample=anns))
    pol = lambda i, rho: oarr([i.o[0] + rho * cos(TP * i.a), i.o[1] + rho * sin(TP * i.a)])
    out.append(H("disk onto", dict(a=Arr(lo=0, hi=1, hi_strict=True), q=Arr(lo=0), **D), lambda i: dk(i).transform(jnp.stack([i.a, (i.q / i.r) ** 2])),
                 lambda i, o: [("every point in polar coordinates is reached", SAME(o, pol(i, i.q)))], assume=lambda i: [tm.lt(i.q, i.r)], sample=lambda g: (lambda r: dict(r=r, q=r * g.uniform(0, 0.95)))(g.uniform(0.5, 2))))
    out.append(H("annulus onto", dict(a=Arr(lo=0, hi=1, hi_strict=True), q=pos(), **A), lambda i: an(i).transform(jnp.stack([i.a, (i.q ** 2 - i.r1 ** 2) / (i.r2 ** 2 - i.r1 ** 2)])),
                 lambda i, o: [("every point in polar coordinates is reached", SAME(o, pol(i, i.q)))], assume=lambda i: ann_ok(i) + [tm.le(i.r1, i.q), tm.lt(i.q, i.r2)],
                 sample=lambda g: (lambda r, w: dict(r1=r, r2=r + w, q=r + w * g.uniform(0, 0.95)))(g.uniform(0.1, 1), g.uniform(0.2, 1))))
    for nm, ins, f, d, kw in (("disk", D, lambda i, x: dk(i).transform(x), 2, {}), ("annulus", A, lambda i, x: an(i).transform(x), 2, dict(assume=ann_ok, sample=anns))):
        out += batch_h(nm, ins, f, d, **kw)
        out.append(H(f"{nm} wrap around", dict(ins, x=X2), lambda i, f=f: (f(i, i.x + 1), f(i, i.x)), lambda i, o: [("periodic", SAME(o[0], o[1]))], **kw))
    out.append(H("disk and annulus support", dict(r=pos(), **A), lambda i: (dk(i).support(), an(i).support(), dk(i).dimension, an(i).dimension),
                 lambda i, o: [("disk", EQ(o[0], tm.PI * i.r * i.r)), ("annulus", EQ(o[1], tm.PI * (i.r2 * i.r2 - i.r1 * i.r1))), ("dimension", AND(EQ(o[2], 2), EQ(o[3], 2)))], assume=ann_ok, sample=anns))
    out.append(H("transform_circle and transform_annulus", dict(x=X2, r=pos(), **A), lambda i: (transform_circle(i.x, i.r, i.o), dk(i).transform(i.x), transform_annulus(i.x, i.r1, i.r2, i.o), an(i).transform(i.x)),
                 lambda i, o: [("same as the domains", AND(SAME(o[0], o[1]), SAME(o[2], o[3])))], assume=ann_ok, sample=anns))
    # ------------------------------------------------------------ balls
    X3 = Arr(3, lo=0, hi=1, hi_strict=True)
    S = dict(r=pos(), o=Arr(3))
    sp = lambda i: Sphere(i.r, tup(i.o))
    f = lambda i, x: sp(i).transform(x)
    out.append(H("ball inside", dict(x=X3, **S), lambda i: f(i, i.x), lambda i, o: [("inside", LE(d2(i, o), i.r * i.r)), ("radius", EQ(d2(i, o) ** 3, i.x[2] * i.x[2] * i.r ** 6))]))
    out.append(H("ball onto", dict(a=Arr(lo=0, hi=1, hi_strict=True), u=Arr(lo=-1, hi=1, hi_strict=True), q=Arr(lo=0), **S), lambda i: f(i, jnp.stack([(i.u + 1) / 2, i.a, (i.q / i.r) ** 3])),
                 lambda i, o: [("every point in spherical coordinates is reached", SAME(o, oarr([i.o[0] + i.q * cos(TP * i.a) * SQRT(1 - i.u * i.u), i.o[1] + i.q * sin(TP * i.a) * SQRT(1 - i.u * i.u), i.o[2] + i.q * i.u])))],
                 assume=lambda i: [tm.lt(i.q, i.r)], sample=lambda g: (lambda r: dict(r=r, q=r * g.uniform(0, 0.95)))(g.uniform(0.5, 2))))
    out += batch_h("ball", S, f, 3)
    out.append(H("ball wrap around", dict(S, x=X3), lambda i: (f(i, i.x + 1), f(i, i.x)), lambda i, o: [("periodic", SAME(o[0], o[1]))]))
    out.append(H("ball support", dict(x=X3, **S), lambda i: (sp(i).support(), sp(i).dimension, transform_sphere(i.x, i.r, i.o), f(i, i.x)),
                 lambda i, o: [("volume", EQ(o[0], Fraction(4, 3) * tm.PI * i.r ** 3)), ("dimension", EQ(o[1], 3)), ("transform_sphere", SAME(o[2], o[3]))]))
    return out
