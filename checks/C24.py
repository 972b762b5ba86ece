"""The spline basis: B-splines of the given grid."""
import numpy as np
from .common import *
from magpi.spline import basis

INFO = dict(bounds="any input, any increasing grid (strictly, or with repeated knots where stated) of degree+2 to degree+4 nodes (degree 0: 2-5), degrees 0-4 (degree 4: the recursion; thorough: 5); batches of inputs and one grid per feature",
            outside="longer grids (the basis functions are local: function i only reads nodes i..i+degree+1), degrees above five")


def bspl(x, k, i, t):
    """Cox-de Boor, written down independently; 0/0 := 0"""
    if k == 0:
        return tm.ite(AND(tm.le(t[i], x), tm.lt(x, t[i + 1])), tm.ONE, tm.ZERO)
    def part(num, den, b):
        return tm.ite(tm.eq(den, tm.ZERO), tm.ZERO, num / den * b)
    return part(x - t[i], t[i + k] - t[i], bspl(x, k - 1, i, t)) + part(t[i + k + 1] - x, t[i + k + 1] - t[i + 1], bspl(x, k - 1, i + 1, t))


def incr(t, strict=True):
    return [(tm.lt if strict else tm.le)(t[j], t[j + 1]) for j in range(len(t) - 1)]


def grid_sample(n, strict=True):
    def s(g):
        d = g.uniform(0.2, 1.0, n)
        if not strict:
            d = d * (g.random(n) < 0.6)
        t = np.cumsum(d) - 1
        return dict(t=t, x=g.uniform(t[0] - 0.2, t[-1] + 0.2))
    return s


def harnesses():
    out = []
    for k in (0, 1, 2, 3):
        for n in list(range(k + 2, (6 if k == 0 else k + 5))) + [8] * (k == 3):
            m = n - k - 1
            quick = not (k == 3 and n > 6)
            fn = lambda i, k=k: basis(i.x, i.t, degree=k)
            ins = dict(x=Arr(), t=Arr(n))
            asm = lambda i: incr(i.t)

            # the cell which contains x is fixed per harness
            cells = [(None, "left of the grid")] + [(c, f"cell {c}") for c in range(n - 1)] + [(n - 1, "right of the grid")]
            for c, cn in cells:
                if n == 8 and c != 3:
                    continue
                def where(i, c=c, n=n):
                    if c is None:
                        return [tm.lt(i.x, i.t[0])]
                    if c == n - 1:
                        return [tm.le(i.t[n - 1], i.x)]
                    return [tm.le(i.t[c], i.x), tm.lt(i.x, i.t[c + 1])]

                def smp(g, c=c, n=n):
                    d = g.uniform(0.2, 1.0, n)
                    t = np.cumsum(d) - 1
                    x = t[0] - g.uniform(0.1, 1) if c is None else t[-1] + g.uniform(0, 1) if c == n - 1 else g.uniform(t[c], t[c + 1])
                    return dict(t=t, x=x)

                def cl(i, o, k=k, n=n, m=m, c=c):
                    r = [("one function per span", tm.boolc(np.shape(o) == (m,)))]
                    if np.shape(o) != (m,):
                        return r
                    for j in range(m):
                        r.append((f"B{j} recursion", EQ(o[j], bspl(i.x, k, j, i.t))))
                        if c is None or not (j <= c <= j + k):
                            r.append((f"B{j} vanishes off its span", EQ(o[j], 0)))
                        else:
                            r.append((f"B{j} nonnegative", LE(0, o[j])))
                    if c is not None and k <= c <= n - 2 - k:
                        r.append(("sum to one", EQ(tm.add(*o), 1)))
                        if k >= 1:  # Marsden: sum of knot averages reproduces x
                            r.append(("reproduces x", EQ(tm.add(*[o[j] * (tm.add(*[i.t[j + a] for a in range(1, k + 1)]) / k) for j in range(m)]), i.x)))
                    return r
                if k >= 2 and not (c is None or c == n - 1) and n == k + 4 and c not in (k, n - 2 - k, 1):
                    tier = "thorough"
                else:
                    tier = "quick" if quick or n == 8 else "thorough"
                out.append(H(f"degree {k}, {n} nodes, {cn}", ins, fn, cl, assume=lambda i, w=where: incr(i.t) + w(i), sample=smp, tier=tier))
            if n == k + 2 and k >= 1:
                out.append(H(f"degree {k}, repeated knots", ins, fn,
                             lambda i, o, k=k: [("recursion with 0/0 = 0", EQ(o[0], bspl(i.x, k, 0, i.t))), ("finite, nonnegative", LE(0, o[0])), ("at most one", LE(o[0], 1))],
                             assume=lambda i: incr(i.t, False), sample=grid_sample(n, False), tier="quick" if k < 3 else "thorough"))
    # higher degrees: one cell in the middle
    for k, n, cs in ((4, 7, (0, 2, 4)), (5, 8, (3,))):
        for c in cs:
            out.append(H(f"degree {k}, {n} nodes, cell {c}, recursion", dict(x=Arr(), t=Arr(n)), lambda i, k=k: basis(i.x, i.t, degree=k),
                         lambda i, o, k=k, n=n: [("one function per span", tm.boolc(np.shape(o) == (n - k - 1,)))] + [(f"B{j} recursion", EQ(o[j], bspl(i.x, k, j, i.t))) for j in range(n - k - 1)],
                         assume=lambda i, c=c: incr(i.t) + [tm.le(i.t[c], i.x), tm.lt(i.x, i.t[c + 1])],
                         sample=lambda g, n=n, c=c: (lambda t: dict(t=t, x=g.uniform(t[c], t[c + 1])))(np.cumsum(g.uniform(0.2, 1.0, n)) - 1), tier="quick" if k == 4 else "thorough"))
    for k in (1, 2):
        n = k + 3
        out.append(H(f"degree {k}, batch of inputs", dict(x=Arr(2, 2), t=Arr(n)), lambda i, k=k: dict(b=basis(i.x, i.t, degree=k), s=[[basis(i.x[a, b], i.t, degree=k) for b in range(2)] for a in range(2)]),
                     lambda i, o, k=k, n=n: [("shape", tm.boolc(np.shape(o["b"]) == (2, 2, n - k - 1)))] + [(f"input {a}{b}", SAME(o["b"][a, b], o["s"][a][b])) for a in range(2) for b in range(2)],
                     assume=lambda i: incr(i.t), sample=lambda g, n=n: dict(t=np.cumsum(g.uniform(0.2, 1, n)) - 1)))
        out.append(H(f"degree {k}, one grid per feature", dict(x=Arr(2), t=Arr(2, n)), lambda i, k=k: dict(b=basis(i.x, i.t, degree=k), s=[basis(i.x[a], i.t[a], degree=k) for a in range(2)]),
                     lambda i, o, k=k, n=n: [("shape", tm.boolc(np.shape(o["b"]) == (2, n - k - 1)))] + [(f"feature {a}", SAME(o["b"][a], o["s"][a])) for a in range(2)],
                     assume=lambda i: incr(i.t[0]) + incr(i.t[1]), sample=lambda g, n=n: dict(t=np.cumsum(g.uniform(0.2, 1, (2, n)), axis=1) - 1)))
    out.append(H("default degree is three", dict(x=Arr(), t=Arr(6)), lambda i: (basis(i.x, i.t), basis(i.x, i.t, degree=3)), lambda i, o: [("cubic", SAME(o[0], o[1]))],
                 assume=lambda i: incr(i.t), sample=grid_sample(6)))
    return out
