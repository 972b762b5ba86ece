"""Normal vectors and inclusion tests of domains."""
import itertools
import numpy as np
from .common import *
from .C28 import tup
from magpi.domain import Hypercube, Sphere, Disk

INFO = dict(bounds="hypercubes in 1-3 dimensions, disks, balls; all bounds, radii, centres; all points of the boundary incl. edges and corners, all points which differ from it by more than 1e-4 (relative and absolute); single points, batches of 2 and nested batches; edges not thinner than 1/100 of their coordinates",
            outside="points within the tolerance of the boundary but not on it, needle-like boxes whose faces lie within the tolerance of each other, more than 3 dimensions")


def get(dom, x):
    n = dom.normal_vec(x)
    return dict(some=jnp.asarray(n is not None), n=jnp.zeros(x.shape) if n is None else jnp.asarray(n))


def scale(i, k):
    return 1 + ABS(i.lb[k]) + ABS(i.lb[k] + i.e[k])


def fat(i):
    return [LE(scale(i, k) / 100, i.e[k]) for k in range(len(i.lb))]


def face_normal(i, x, n):
    """n is the outward unit normal of a face through x"""
    d, tol = len(i.lb), Fraction(1, 10000)
    out = []
    for k in range(d):
        for u in (0, 1):
            at = LE(ABS(x[k] - (i.lb[k] + i.e[k] if u else i.lb[k])), tol * scale(i, k))
            out.append(AND(at, *[tm.eq(n[j], tm.const((1 if u else -1) if j == k else 0)) for j in range(d)]))
    return OR(*out)


def harnesses():
    out = []
    hyp = lambda i: Hypercube(tup(i.lb), tup(i.lb + i.e))
    for d in (1, 2, 3):
        E = dict(lb=Arr(d), e=pos(d))
        # every boundary point: coordinates are at the lower end, inside or at the upper end
        for pat in itertools.product((0, 1, 2), repeat=d):
            if all(p == 1 for p in pat):
                continue
            def pt(i, y, pat=pat):
                return jnp.stack([[i.lb[k], i.lb[k] + y[k] * i.e[k], i.lb[k] + i.e[k]][p] for k, p in enumerate(pat)])
            nm = "".join("<-"[p == 1] if p < 2 else ">" for p in pat)
            spt = lambda i, y, pat=pat: oarr([[i.lb[k], i.lb[k] + y[k] * i.e[k], i.lb[k] + i.e[k]][p] for k, p in enumerate(pat)])
            Y = Arr(d, lo=0, hi=1, lo_strict=True, hi_strict=True)
            out.append(H(f"hypercube {d}D boundary {nm}", dict(y=Y, **E), lambda i, pt=pt: get(hyp(i), pt(i, i.y)),
                         lambda i, o, spt=spt, d=d: [("there is a normal", o["some"]), ("shape", tm.boolc(np.shape(o["n"]) == (d,))), ("outward unit normal of a face through the point", face_normal(i, spt(i, i.y), o["n"]))], assume=fat))
        m = Fraction(1, 10000)
        inside = lambda i, x, d=d: [AND(LT(i.lb[k] + m * scale(i, k), x[k]), LT(x[k], i.lb[k] + i.e[k] - m * scale(i, k))) for k in range(d)]
        outside = lambda i, x, d=d: [OR(*[OR(LT(x[k], i.lb[k] - m * scale(i, k)), LT(i.lb[k] + i.e[k] + m * scale(i, k), x[k])) for k in range(d)])]
        X = dict(x=Arr(d), **E)
        out.append(H(f"hypercube {d}D inside", X, lambda i: get(hyp(i), i.x), lambda i, o: [("no normal", NOT(o["some"]))], assume=lambda i, inside=inside: fat(i) + inside(i, i.x)))
        out.append(H(f"hypercube {d}D outside", X, lambda i: get(hyp(i), i.x), lambda i, o: [("no normal", NOT(o["some"]))], assume=lambda i, outside=outside: fat(i) + outside(i, i.x)))
        out.append(H(f"hypercube {d}D includes", dict(X, z=Arr(2, d)), lambda i: dict(a=hyp(i).includes(i.x).all(), b=hyp(i).includes(i.z).all(axis=-1)),
                     lambda i, o, d=d: [("the closed box", IFF(o["a"], AND(*[AND(LE(i.lb[k], i.x[k]), LE(i.x[k], i.lb[k] + i.e[k])) for k in range(d)])))]
                     + [(f"point {q} of a batch", IFF(o["b"][q], AND(*[AND(LE(i.lb[k], i.z[q, k]), LE(i.z[q, k], i.lb[k] + i.e[k])) for k in range(d)]))) for q in range(2)]))
        if d == 1:
            continue
        # batches: a boundary point next to any other point
        pats = [p for p in itertools.product((0, 1, 2), repeat=d) if any(q != 1 for q in p)]
        step = {2: 3, 3: 7}[d]
        for a in range(0, len(pats), 1 if d == 2 else 3):
            p, q = pats[a], pats[(a * 2 + step) % len(pats)]
            def pts(i, p=p, q=q, lib=jnp.stack):
                row = lambda r, y: lib([[i.lb[k], i.lb[k] + y[k] * i.e[k], i.lb[k] + i.e[k]][c] for k, c in enumerate(r)])
                return lib([row(p, i.y), row(q, i.w)])
            nm = " ".join("".join("<->"[c] for c in r) for r in (p, q))
            out.append(H(f"hypercube {d}D batch {nm}", dict(y=Y, w=Y, **E), lambda i, pts=pts: get(hyp(i), pts(i)),
                         lambda i, o, pts=pts, d=d: [("there are normals", o["some"]), ("shape", tm.boolc(np.shape(o["n"]) == (2, d)))] + [(f"point {k}", face_normal(i, pts(i, lib=oarr)[k], o["n"][k])) for k in range(2)], assume=fat))
        for p in (pats[0], pats[len(pats) // 2], pats[-2]):
            for order in (0, 1):
                for nm2, cond in (("inside", inside), ("outside", outside)):
                    def pts(i, p=p, order=order):
                        b = jnp.stack([[i.lb[k], i.lb[k] + i.y[k] * i.e[k], i.lb[k] + i.e[k]][c] for k, c in enumerate(p)])
                        return jnp.stack([b, i.x] if order == 0 else [i.x, b])
                    nm = "".join("<->"[c] for c in p)
                    out.append(H(f"hypercube {d}D batch {nm} and {nm2} {order}", dict(y=Y, **X), lambda i, pts=pts: get(hyp(i), pts(i)), lambda i, o: [("no normals", NOT(o["some"]))],
                                 assume=lambda i, cond=cond: fat(i) + cond(i, i.x)))
        # nested batches
        for shape in ((1, 2), (2, 1), (1,), (1, 1)):
            nb = int(np.prod(shape))
            for case in ("boundary", "inside", "outside"):
                p, q = pats[1], pats[-2]

                def pts(i, shape=shape, case=case, p=p, q=q, nb=nb, lib=jnp.stack):
                    row = lambda r, y: lib([[i.lb[k], i.lb[k] + y[k] * i.e[k], i.lb[k] + i.e[k]][c] for k, c in enumerate(r)])
                    return lib([row(p, i.y), row(q, i.w) if case == "boundary" else i.x][-nb:]).reshape(shape + (-1,))
                if case == "boundary":
                    def cl(i, o, pts=pts, shape=shape, nb=nb, d=d):
                        ok = np.shape(o["n"]) == shape + (d,)
                        c = [("there are normals", o["some"]), ("shape", tm.boolc(ok))]
                        return c + ([(f"point {k}", face_normal(i, pts(i, lib=oarr).reshape(nb, d)[k], o["n"].reshape(nb, d)[k])) for k in range(nb)] if ok else [])
                    out.append(H(f"hypercube {d}D nested batch {shape} {case}", dict(y=Y, w=Y, **E), lambda i, pts=pts: get(hyp(i), pts(i)), cl, assume=fat))
                else:
                    out.append(H(f"hypercube {d}D nested batch {shape} {case}", dict(y=Y, **X), lambda i, pts=pts: get(hyp(i), pts(i)), lambda i, o: [("no normals", NOT(o["some"]))],
                                 assume=lambda i, cond=inside if case == "inside" else outside: fat(i) + cond(i, i.x)))
    # ------------------------------------------------------------ disks and balls
    for d, D in ((2, Disk), (3, Sphere)):
        R = dict(r=pos(), o=Arr(d))
        dom = lambda i, D=D: D(i.r, tup(i.o))
        m = Fraction(1, 10000)
        # boundary points o + r v / |v|
        on = lambda i, v: i.o + i.r * v / jnp.linalg.norm(v)
        def unitn(i, v, n):
            return AND(EQ(sumsq(n), 1), *[EQ(n[j] * v[k], n[k] * v[j]) for j in range(len(v)) for k in range(j)], P(dot(n, v)))
        nz = lambda i: [P(sumsq(i.v))]
        out.append(H(f"{d}-ball boundary", dict(v=Arr(d), **R), lambda i, dom=dom, on=on: get(dom(i), on(i, i.v)),
                     lambda i, o, d=d: [("there is a normal", o["some"]), ("shape", tm.boolc(np.shape(o["n"]) == (d,))), ("unit", EQ(sumsq(o["n"]), 1)), ("radially outward", SAME(o["n"] * SQRT(sumsq(i.v)), i.v))], assume=nz))
        for b in (2, 3):
            out.append(H(f"{d}-ball batch of {b}", dict(v=Arr(b, d), **R), lambda i, dom=dom, b=b, on=on: get(dom(i), jnp.stack([on(i, i.v[k]) for k in range(b)])),
                         lambda i, o, d=d, b=b: [("there are normals", o["some"]), ("shape", tm.boolc(np.shape(o["n"]) == (b, d)))] + [(f"point {k}", AND(EQ(sumsq(o["n"][k]), 1), SAME(o["n"][k] * SQRT(sumsq(i.v[k])), i.v[k]))) for k in range(b)] if np.shape(o["n"]) == (b, d) else [("shape", tm.FALSE)],
                         assume=lambda i, b=b: [P(sumsq(i.v[k])) for k in range(b)]))
        for shape in ((1, 2), (2, 1), (1,)):
            nb = int(np.prod(shape))
            out.append(H(f"{d}-ball nested batch {shape}", dict(v=Arr(nb, d), **R), lambda i, dom=dom, shape=shape, nb=nb, on=on: get(dom(i), jnp.stack([on(i, i.v[k]) for k in range(nb)]).reshape(shape + (-1,))),
                         lambda i, o, d=d, shape=shape, nb=nb: [("there are normals", o["some"]), ("shape", tm.boolc(np.shape(o["n"]) == shape + (d,)))] + [(f"point {k}", AND(EQ(sumsq(o["n"].reshape(nb, d)[k]), 1), SAME(o["n"].reshape(nb, d)[k] * SQRT(sumsq(i.v[k])), i.v[k]))) for k in range(nb)] if np.shape(o["n"]) == shape + (d,) else [("shape", tm.FALSE)],
                         assume=lambda i, nb=nb: [P(sumsq(i.v[k])) for k in range(nb)]))
        off = lambda i, x: [OR(LT(sumsq(x - i.o), (i.r * Fraction(9999, 10000) - Fraction(1, 10**6)) ** 2), LT((i.r * Fraction(10001, 10000) + Fraction(1, 10**6)) ** 2, sumsq(x - i.o))), LT(Fraction(1, 1000), i.r)]
        out.append(H(f"{d}-ball off the boundary", dict(x=Arr(d), **R), lambda i, dom=dom: get(dom(i), i.x), lambda i, o: [("no normal", NOT(o["some"]))], assume=lambda i, off=off: off(i, i.x)))
        for order in (0, 1):
            out.append(H(f"{d}-ball batch with a point off the boundary {order}", dict(x=Arr(d), v=Arr(d), **R), lambda i, dom=dom, order=order, on=on: get(dom(i), jnp.stack([i.x, on(i, i.v)][::-1 if order else 1])), lambda i, o: [("no normals", NOT(o["some"]))],
                         assume=lambda i, off=off: off(i, i.x) + nz(i)))
        out.append(H(f"{d}-ball includes", dict(x=Arr(d), z=Arr(2, d), **R), lambda i, dom=dom: dict(a=dom(i).includes(i.x), b=dom(i).includes(i.z)),
                     lambda i, o: [("the open ball", IFF(o["a"], LT(sumsq(i.x - i.o), i.r * i.r))), ("shape", tm.boolc(np.shape(o["a"]) == () and np.shape(o["b"]) == (2,)))] + [(f"point {k} of a batch", IFF(o["b"][k], LT(sumsq(i.z[k] - i.o), i.r * i.r))) for k in range(2)]))
    return out
