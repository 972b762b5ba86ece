"""Transformations are uniform: their volume element is constant and equal to the support."""
import numpy as np
import jax
from .common import *
from .C28 import tup
from .C29 import piece
from magpi.domain import (Hypercube, Parallelogram, Sphere, Disk, Annulus, transform_triangle, transform_polyline)

INFO = dict(bounds="all parameters strictly inside (0,1) (and (1,2), which wrap around) where the map is smooth; any bounds, corners, radii, centres; hypercubes in 1-3 dimensions and their boundaries in 2-3, parallelograms in 2-3 dimensions, triangles in 2-3 dimensions, polylines of 1-3 segments",
            outside="higher dimensions; that the maps are one to one, which C28 and C29 cover as far as it holds",
            explanation="The derivative of the map is JAX's forward mode derivative of the real code, executed symbolically.")


def gram(J):
    J = np.asarray(J)
    if J.ndim == 1:
        return sumsq(J)
    n = J.shape[1]
    G = [[dot(J[:, a], J[:, b]) for b in range(n)] for a in range(n)]
    return det(G)


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    return sum(((-1) ** c) * M[0][c] * det([[r[k] for k in range(n) if k != c] for r in M[1:]]) for c in range(n))


def harnesses():
    out = []
    U = lambda n: Arr(n, lo=0, hi=1, lo_strict=True, hi_strict=True)
    U0 = Arr(lo=0, hi=1, lo_strict=True, hi_strict=True)

    def volume(name, dom, ins, n, m=None, assume=None, **kw):
        """|det J| = support"""
        m = m or n
        for w in (0, 1):
            def fn(i, w=w):
                d = dom(i)
                return dict(J=jax.jacfwd(d.transform)(i.x + w), s=d.support())
            cl = lambda i, o: [("volume element", EQ(det([[o["J"][a, b] for b in range(n)] for a in range(n)]) ** 2 if m == n else gram(o["J"]), o["s"] * o["s"]))] + ([("support", P(o["s"]))] if "parallel" not in name else [])
            out.append(H(name + (" wrapped" if w else ""), dict(x=U(n), **ins), fn, cl, assume=assume, **kw))

    for n in (1, 2, 3):
        volume(f"hypercube {n}D", lambda i: Hypercube(tup(i.lb), tup(i.lb + i.e)), dict(lb=Arr(n), e=pos(n)), n)
    for n in (2, 3):
        def nd(i, n=n):
            u, v = i.b - i.a, i.c - i.a
            return [P(sumsq(u) * sumsq(v) - dot(u, v) ** 2)]
        volume(f"parallelogram {n}D", lambda i: Parallelogram(tup(i.a), tup(i.b), tup(i.c)), dict(a=Arr(n), b=Arr(n), c=Arr(n)), 2, m=n if n != 2 else None, assume=nd)
    volume("disk", lambda i: Disk(i.r, tup(i.o)), dict(r=pos(), o=Arr(2)), 2)
    volume("annulus", lambda i: Annulus(i.r, i.r + i.t, tup(i.o)), dict(r=Arr(lo=0), t=pos(), o=Arr(2)), 2)
    volume("ball", lambda i: Sphere(i.r, tup(i.o)), dict(r=pos(), o=Arr(3)), 3)
    # ------------------------------------------------------------ triangles
    for n in (2, 3):
        for half in (0, 1):
            area = lambda i: sumsq(i.b - i.a) * sumsq(i.c - i.a) - dot(i.b - i.a, i.c - i.a) ** 2
            out.append(H(f"triangle {n}D half {half}", dict(x=U(2), a=Arr(n), b=Arr(n), c=Arr(n)), lambda i: jax.jacfwd(lambda x: transform_triangle(x, i.a, i.b, i.c))(i.x),
                         lambda i, o, area=area: [("area element", EQ(gram(o), area(i)))],
                         assume=lambda i, half=half: [LT(i.x[0] + i.x[1], 1) if half == 0 else LT(1, i.x[0] + i.x[1])]))
    # ------------------------------------------------------------ boundaries of hypercubes
    for n in (2, 3):
        E = dict(lb=Arr(n), e=pos(n))
        tot = lambda i, n=n: sum([2 * np.prod([i.e[j] for j in range(n) if j != k]) for k in range(n)])
        for f in range(2 * n):
            for w in (0, 1):
                def fn(i, n=n, f=f, w=w):
                    return jax.jacfwd(Hypercube(tup(i.lb), tup(i.lb + i.e)).transform_bnd)(piece(i, n, f, i.y) + w)
                out.append(H(f"hypercube {n}D boundary piece {f}" + (" wrapped" if w else ""), dict(y=U0 if n == 2 else U(n - 1), **E), fn,
                             lambda i, o, tot=tot: [("surface element", EQ(gram(o), tot(i) ** 2))], saturate=True, tier="quick" if w == 0 or f < 2 else "thorough"))
    # ------------------------------------------------------------ circles, spheres
    D = dict(r=pos(), o=Arr(2))
    out.append(H("circle", dict(s=U(2), **D), lambda i: [jax.jacfwd(Disk(i.r, tup(i.o)).transform_bnd)(i.s[k]) for k in range(2)],
                 lambda i, o: [("constant speed", EQ(gram(o[0]), gram(o[1]))), ("at least once around", LE(4 * tm.PI * tm.PI * i.r * i.r, gram(o[0])))]))
    out.append(H("sphere", dict(s=U(2), r=pos(), o=Arr(3)), lambda i: jax.jacfwd(Sphere(i.r, tup(i.o)).transform_bnd)(i.s),
                 lambda i, o: [("surface element", EQ(gram(o), (4 * tm.PI * i.r * i.r) ** 2))]))
    # ------------------------------------------------------------ polylines
    for n, m in ((2, 1), (2, 2), (3, 2), (2, 3)):
        PT = dict(p=Arr(m + 1, n))
        nz = lambda i, m=m: [P(sumsq(i.p[k + 1] - i.p[k])) for k in range(m)]
        for k in range(m):
            def fn(i, k=k, m=m):
                L = [jnp.linalg.norm(i.p[a + 1] - i.p[a]) for a in range(m)]
                s = (sum(L[:k]) + i.q * L[k]) / sum(L)
                return jax.jacfwd(lambda s: transform_polyline(s, tuple(i.p[a] for a in range(m + 1))))(s)
            out.append(H(f"polyline {n}D {m} segments: segment {k}", dict(PT, q=U0), fn,
                         lambda i, o, m=m: [("constant speed", EQ(gram(o), sum(SQRT(sumsq(i.p[k + 1] - i.p[k])) for k in range(m)) ** 2))], assume=nz, saturate=True))
    return out
