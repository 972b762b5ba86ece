"""linear_map and affine_plane: the map that takes the reference points to the given points."""
import numpy as np
from .common import *
from engine.interp import determinant
from magpi.domain import linear_map, affine_plane

INFO = dict(bounds="any regular reference matrix of 1-3 points (symbolic), any images in 1-4 dimensions; affine planes through any three points in 1-4 dimensions (degenerate ones included)",
            outside="more reference points (LU factorisation of a bigger symbolic matrix); singular references",
            assumptions=["the factorisation inside jax.numpy.linalg.solve solves its system (Cramer's rule over the reals)"])


def harnesses():
    out = []
    det = lambda i: determinant([list(r) for r in i.R])
    for n in (1, 2, 3):
        for m in (1, 2, 3, 4):
            if n == 3 and m == 4:
                continue

            def cl(i, o, n=n, m=m):
                if np.shape(o) != (m, n):
                    return [("shape", tm.FALSE)]
                return [(f"image of point {k}, coordinate {r}", EQ(dot(o[r], i.R[k]), i.X[k, r])) for k in range(n) for r in range(m)]
            out.append(H(f"linear_map {n} points to {m}D", dict(R=Arr(n, n), X=Arr(n, m)), lambda i: linear_map(i.R, i.X), cl,
                         assume=lambda i, det=det: [LE(Fraction(1, 1000), det(i) * det(i))]))
    # concrete references, as in a triangulation
    for nm, R in (("plane", [[0., 0, 1], [1, 0, 1], [0, 1, 1]]), ("shifted plane", [[1., 0, 1], [0, 1, 1], [1, 1, 1]]), ("big", [[100., 3, 1], [0, 50, 1], [-20, 1, 1]]), ("tetrahedron", [[0., 0, 0, 1], [1, 0, 0, 1], [0, 1, 0, 1], [0, 0, 1, 1]])):
        n = len(R)
        for m in (2, 3):
            out.append(H(f"linear_map from the {nm} to {m}D", dict(X=Arr(n, m, lo=-1, hi=1)), lambda i, R=R: linear_map(jnp.array(R), i.X),
                         lambda i, o, R=R, n=n, m=m: [("shape", tm.boolc(np.shape(o) == (m, n)))] + [(f"image of point {k}, coordinate {r}", NEAR(dot(o[r], [tm.const(Fraction(v)) for v in R[k]]), i.X[k, r], Fraction(1, 10**9))) for k in range(n) for r in range(m)]))
    for m in (1, 2, 3, 4):
        P3 = dict(a=Arr(m), b=Arr(m), c=Arr(m))
        out.append(H(f"affine_plane {m}D", P3, lambda i: affine_plane(i.a, i.b, i.c), lambda i, o, m=m: [
            ("shapes", tm.boolc(np.shape(o[0]) == (m, 2) and np.shape(o[1]) == (m,))), ("starts at a", SAME(o[1], i.a)),
            ("first direction", SAME(o[0][:, 0], i.b - i.a)), ("second direction", SAME(o[0][:, 1], i.c - i.a))]))
        out.append(H(f"affine_plane {m}D, the three corners", dict(P3, s=Arr(2)), lambda i: (lambda B, o: (B @ i.s + o))(*affine_plane(i.a, i.b, i.c)), lambda i, o, m=m: [
            ("affine in the parameters", SAME(o, i.a + i.s[0] * (i.b - i.a) + i.s[1] * (i.c - i.a)))]))
    # linear in the images
    out.append(H("linear in the images", dict(R=Arr(2, 2), X=Arr(2, 2), Y=Arr(2, 2), s=Arr()), lambda i: (linear_map(i.R, i.X + i.s * i.Y), linear_map(i.R, i.X), linear_map(i.R, i.Y)),
                 lambda i, o: [("superposition", SAME(o[0], o[1] + i.s * o[2]))], assume=lambda i, det=det: [LE(Fraction(1, 1000), det(i) * det(i))]))
    return out
