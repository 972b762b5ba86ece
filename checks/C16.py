"""Single layer potentials by source and charge tensors; boundary charges."""
import math
import numpy as np
from .common import *
from .C13 import own
from .C15 import R, dS, quad, pieces
from magpi.integrate import midpoint, trap, gauss
from magpi.calc import curl
from magpi.surface_integral import (integrate_surface, source_tensor, charge_tensor, single_layer_potential,
                                    curl_single_layer_potential, scalar_potential_charge, vector_potential_charge)

INFO = dict(bounds="any smooth parametrisation, any smooth scalar or vector charge, any observation point off the nodes, expansion orders 0-3, 1-4 surface elements, midpoint/trap rules (default rule: one element, order 0)",
            outside="higher orders, more elements; discretisation and expansion error")


def multi(n, k):
    """all index tuples of length k, first index slowest"""
    import itertools
    return list(itertools.product(range(n), repeat=k))


def D(name, x, d=()):
    return app(name, list(x), tuple(sorted(d)))


def centre(pu, pv):
    return R([(pu[0] + pu[1]) / 2, (pv[0] + pv[1]) / 2])


def dist(x, y):
    return SQRT(sumsq([a - b for a, b in zip(x, y)]))


def src_spec(i, rn, order):
    out = []
    for pu in pieces(i.u):
        for pv in pieces(i.v):
            c = centre(pu, pv)
            for k in range(order + 1):
                for m in multi(3, k):
                    out.append(quad([own(rn, pu), own(rn, pv)], lambda y: tm.mul(tm.ONE, *[y[j] - c[j] for j in m]) / dist(i.x, y)))
    return out


def nodes(i, rn):
    return [x for pu in pieces(i.u) for pv in pieces(i.v) for x in __import__("itertools").product(own(rn, pu)[1], own(rn, pv)[1])]


def off(rn):
    """the observation point is none of the quadrature nodes"""
    return lambda i: [tm.lt(tm.ZERO, sumsq([a - b for a, b in zip(i.x, R(list(w)))])) for w in nodes(i, rn)]


def harnesses():
    out = []
    r = lambda: ovec("r", 2, 3)
    GEO = lambda m, n: dict(x=Arr(3), u=Arr(m), v=Arr(n))
    RULES = dict(midpoint=midpoint, trap=trap)
    rr = [r()]   # jit needs a hashable parametrisation
    for order in (0, 1, 2, 3):
        for rn, (m, n) in (("midpoint", (2, 3)), ("midpoint", (3, 2)), ("trap", (2, 2))):
            if order == 3 and (m, n) != (2, 3) or order == 2 and rn == "trap":
                continue

            def fn(i, rn=rn, order=order):
                return source_tensor(i.x, r(), i.u, i.v, method=RULES[rn], order=order, compute_jacfwd=False)

            out.append(H(f"source tensor {rn} {m}x{n} order {order}", GEO(m, n), fn, assume=off(rn),
                         claim=lambda i, o, rn=rn, order=order: [("moments of 1/|x-y| over every element", SAME(o, oarr(src_spec(i, rn, order))))]))
    flat = lambda w: jnp.concatenate([w, jnp.zeros(1)])
    out.append(H("source tensor defaults", GEO(2, 2), lambda i: (source_tensor(i.x, flat, i.u, i.v, compute_jacfwd=False), source_tensor(i.x, flat, i.u, i.v, method=gauss(5), order=2, compute_jacfwd=False)),
                 lambda i, o: [("order 2, Gauss with 5 nodes", SAME(o[0], o[1]))], assume=lambda i: [tm.lt(tm.ZERO, i.x[2])],
                 sample=lambda g: dict(x=np.array([g.uniform(), g.uniform(), g.uniform(0.5, 1)]))))
    for rn, mn, order in (("midpoint", (2, 3), 1), ("trap", (2, 2), 0), ("midpoint", (2, 2), 2)):
        def fn(i, rn=rn, order=order):
            z, J = source_tensor(i.x, r(), i.u, i.v, method=RULES[rn], order=order)
            return z, J, source_tensor(i.x, r(), i.u, i.v, method=RULES[rn], order=order, compute_jacfwd=False)

        def jspec(i, rn=rn, order=order):
            rows = []
            for pu in pieces(i.u):
                for pv in pieces(i.v):
                    c = centre(pu, pv)
                    for k in range(order + 1):
                        for m in multi(3, k):
                            rows.append([quad([own(rn, pu), own(rn, pv)], lambda y: tm.mul(tm.ONE, *[y[j] - c[j] for j in m]) * (y[l] - i.x[l]) / dist(i.x, y) ** 3) for l in range(3)])
            return rows
        out.append(H(f"source tensor derivative {rn} {mn} order {order}", GEO(*mn), fn, assume=off(rn),
                     claim=lambda i, o, jspec=jspec: [("value", SAME(o[0], o[2])), ("d/dx of every entry", EQ(o[1], oarr(jspec(i))))]))

    # charge tensor: Taylor coefficients at the element centres
    def ch_spec(i, order, fs, extra=()):
        rows = []
        for pu in pieces(i.u):
            for pv in pieces(i.v):
                c = centre(pu, pv)
                for k in range(order + 1):
                    for m in multi(3, k):
                        rows.append([D(f, c + list(extra), m) / math.factorial(k) for f in fs])
        return rows

    UV = lambda m, n: dict(u=Arr(m), v=Arr(n))
    for order in (0, 1, 2, 3):
        for m, n in ((2, 3), (3, 2), (3, 3)):
            if order == 3 and (m, n) != (2, 3):
                continue
            out.append(H(f"charge tensor scalar {m}x{n} order {order}", UV(m, n), lambda i, order=order: charge_tensor(ofun("f", 3), r(), i.u, i.v, order=order),
                         lambda i, o, order=order: [("Taylor coefficients at the centres", SAME(o, oarr([q[0] for q in ch_spec(i, order, ["f"])])))]))
        out.append(H(f"charge tensor vector order {order}", UV(2, 3), lambda i, order=order: charge_tensor(ovec("f", 3, 3), r(), i.u, i.v, order=order),
                     lambda i, o, order=order: [("Taylor coefficients at the centres", SAME(o, oarr(ch_spec(i, order, ["f0", "f1", "f2"]))))]))
    out.append(H("charge tensor default order", UV(2, 2), lambda i: (charge_tensor(ofun("f", 3), r(), i.u, i.v), charge_tensor(ofun("f", 3), r(), i.u, i.v, order=2)),
                 lambda i, o: [("order 2", SAME(o[0], o[1]))]))
    out.append(H("charge tensor arguments", dict(UV(2, 3), p=Arr(), q=Arr()),
                 lambda i: charge_tensor(lambda y, p, q=0.0: ofun("f", 5)(jnp.concatenate([y, p[None], jnp.asarray(q, float)[None]])), r(), i.u, i.v, i.p, order=1, q=i.q),
                 lambda i, o: [("reach the charge, only the position is expanded", SAME(o, oarr([q[0] for q in ch_spec(i, 1, ["f"], (i.p, i.q))])))]))

    # potentials
    out.append(H("single layer potential scalar", dict(s=Arr(4), c=Arr(4)), lambda i: single_layer_potential(i.s, i.c), lambda i, o: [("contraction / 4 pi", EQ(o, dot(i.s, i.c) / (4 * tm.PI)))]))
    out.append(H("single layer potential vector", dict(s=Arr(4), c=Arr(4, 3)), lambda i: single_layer_potential(i.s, i.c), lambda i, o: [("componentwise", EQ(o, oarr([dot(i.s, i.c[:, k]) / (4 * tm.PI) for k in range(3)])))]))
    out.append(H("field of a scalar potential", dict(s=Arr(4, 3), c=Arr(4)), lambda i: single_layer_potential(i.s, i.c), lambda i, o: [("componentwise", EQ(o, oarr([dot(i.s[:, k], i.c) / (4 * tm.PI) for k in range(3)])))]))

    def curlsum(s, c):
        tot = [tm.ZERO] * 3
        for k in range(len(s)):
            w = crossp(s[k], c[k])
            tot = [a + b for a, b in zip(tot, w)]
        return oarr([t / (4 * tm.PI) for t in tot])
    for K in (1, 3, 4):
        out.append(H(f"curl of a vector potential K={K}", dict(s=Arr(K, 3), c=Arr(K, 3)), lambda i: curl_single_layer_potential(i.s, i.c), lambda i, o: [("sum of grad s x c / 4 pi", EQ(o, curlsum(i.s, i.c)))]))
    # the two together: every polynomial charge up to the expansion order is exact
    def polyc(i, y, order):
        s = i.c0
        if order >= 1:
            s = s + i.c1 @ y
        if order >= 2:
            s = s + y @ (i.c2 @ y)
        return s

    for order in (0, 1, 2):
        geo = dict(GEO(2, 3), c0=Arr(), c1=Arr(3), c2=Arr(3, 3))

        def fn(i, order=order):
            S = source_tensor(i.x, r(), i.u, i.v, method=midpoint, order=order, compute_jacfwd=False)
            C = charge_tensor(lambda y, a, b, c: polyc(__import__("types").SimpleNamespace(c0=a, c1=b, c2=c), y, order), r(), i.u, i.v, i.c0, i.c1, i.c2, order=order)
            direct = integrate_surface(lambda y: polyc(i, y, order) / jnp.linalg.norm(i.x - y), r(), i.u, i.v, method=midpoint)
            return single_layer_potential(S, C), direct

        out.append(H(f"polynomial charges of degree {order} are exact", geo, fn, assume=off("midpoint"),
                     claim=lambda i, o: [("potential = 1/4pi int charge/|x-y|", EQ(o[0], o[1] / (4 * tm.PI)))]))

    def fcurl(i):
        z, J = source_tensor(i.x, r(), i.u, i.v, method=midpoint, order=1)
        C = charge_tensor(ovec("f", 3, 3), r(), i.u, i.v, order=1)
        A = lambda x: single_layer_potential(source_tensor(x, r(), i.u, i.v, method=midpoint, order=1, compute_jacfwd=False), C)
        return curl_single_layer_potential(J, C), curl(A)(i.x)
    out.append(H("curl of the single layer potential", GEO(2, 2), fcurl, assume=off("midpoint"), claim=lambda i, o: [("= curl of A(x)", EQ(o[0], o[1]))]))

    # boundary charges
    adf = lambda: ofun("l", 3)
    g = lambda x: [D("l", x, (k,)) for k in range(3)]
    gn = lambda x: SQRT(sumsq(g(x)))
    nrm = lambda x: [-a / gn(x) for a in g(x)]
    NZ = lambda i: [tm.lt(tm.ZERO, sumsq(g(i.x)))]
    X = dict(x=Arr(3), p=Arr(), q=Arr())
    cat = lambda f, n: (lambda y, *p: f(jnp.concatenate([y] + [jnp.asarray(v)[None] for v in p])))
    for normalized in (False, True, None):
        kw = {} if normalized is None else dict(normalized=normalized)

        def fs(i, kw=kw):
            return (scalar_potential_charge(adf(), ovec("m", 3, 3), ofun("h", 3), **kw)(i.x),
                    scalar_potential_charge(adf(), cat(ovec("k", 4, 3), 4), cat(ofun("w", 5), 5), **kw)(i.x, (i.p,), (i.p, i.q)))

        def cs(i, o, N=bool(normalized)):
            n = nrm(i.x)
            a = dot([D(f"m{k}", i.x) for k in range(3)], n)
            z1, z2 = list(i.x) + [i.p], list(i.x) + [i.p, i.q]
            b = dot([D(f"k{k}", z1) for k in range(3)], n)
            if N:
                return [("m.n + phi1", EQ(o[0], a + D("h", i.x))), ("with parameters", EQ(o[1], b + D("w", z2)))]
            return [("m.n - dphi1/dn", EQ(o[0], a - dot([D("h", i.x, (k,)) for k in range(3)], n))),
                    ("with parameters", EQ(o[1], b - dot([D("w", z2, (k,)) for k in range(3)], n)))]
        out.append(H(f"scalar potential charge normalized={normalized}", X, fs, cs, assume=NZ))

        def fv(i, kw=kw):
            return (vector_potential_charge(adf(), ovec("m", 3, 3), ovec("h", 3, 3), **kw)(i.x),
                    vector_potential_charge(adf(), cat(ovec("k", 4, 3), 4), cat(ovec("w", 5, 3), 5), **kw)(i.x, (i.p,), (i.p, i.q)))

        def cv(i, o, N=bool(normalized)):
            n = nrm(i.x)
            z1, z2 = list(i.x) + [i.p], list(i.x) + [i.p, i.q]
            res = []
            for lab, oo, m, h, zm, zh in (("", o[0], "m", "h", i.x, i.x), (" with parameters", o[1], "k", "w", z1, z2)):
                a = crossp([D(f"{m}{k}", zm) for k in range(3)], n)
                b = [D(f"{h}{k}", zh) if N else -dot([D(f"{h}{k}", zh, (l,)) for l in range(3)], n) for k in range(3)]
                res.append((("m x n + A1" if N else "m x n - dA1/dn") + lab, EQ(oo, oarr([s + t for s, t in zip(a, b)]))))
            return res
        out.append(H(f"vector potential charge normalized={normalized}", X, fv, cv, assume=NZ))
    # for potentials of the form adf * phi on the boundary of a normalised ADF both versions agree
    B = lambda i: [EQ(app("l", i.x), 0), EQ(sumsq(g(i.x)), 1)]
    out.append(H("normalized charges are those of the ansatz adf * phi", dict(x=Arr(3)),
                 lambda i: (scalar_potential_charge(adf(), ovec("m", 3, 3), ofun("h", 3), normalized=True)(i.x),
                            scalar_potential_charge(adf(), ovec("m", 3, 3), lambda y: adf()(y) * ofun("h", 3)(y))(i.x),
                            vector_potential_charge(adf(), ovec("m", 3, 3), ovec("w", 3, 3), normalized=True)(i.x),
                            vector_potential_charge(adf(), ovec("m", 3, 3), lambda y: adf()(y) * ovec("w", 3, 3)(y))(i.x)),
                 lambda i, o: [("scalar", EQ(o[0], o[1])), ("vector", EQ(o[2], o[3]))], assume=B))
    return out
