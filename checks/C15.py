"""Surface integrals over parametrised surfaces, element by element."""
from .common import *
from .C13 import own, grid
from magpi.integrate import midpoint, trap, simpson, gauss, integrate
from magpi.surface_integral import integrate_surface, integrate_surface_elements, center, midpoints

INFO = dict(bounds="any smooth parametrisation of a surface in space (uninterpreted), any integrand, any nodal points (2-3 per direction), midpoint/trap/Gauss rules, extra arguments, vector and pytree integrands",
            outside="more nodes; discretisation error of the quadrature itself")
RULES = dict(midpoint=midpoint, trap=trap, simpson=simpson)


def R(w):
    return [app(f"r{k}", w) for k in range(3)]


def dS(w):
    a = [app(f"r{k}", w, (0,)) for k in range(3)]
    b = [app(f"r{k}", w, (1,)) for k in range(3)]
    return SQRT(sumsq(crossp(a, b)))


def quad(wx, F):
    return tm.add(tm.ZERO, *[w * dS(x) * F(R(x)) for w, x in grid(wx)])


def pieces(d):
    return [[d[k], d[k + 1]] for k in range(len(d) - 1)]


def harnesses():
    out = []
    r = lambda: ovec("r", 2, 3)
    f = lambda y: app("f", y)
    for rn, rule in RULES.items():
        for m, n in ((2, 3), (3, 2), (2, 2)):
            if rn == "simpson" and (m, n) != (2, 2):
                continue
            out.append(H(f"surface {rn} {m}x{n}", dict(u=Arr(m), v=Arr(n)), lambda i, rule=rule: integrate_surface(ofun("f", 3), r(), i.u, i.v, method=rule),
                         lambda i, o, rn=rn: [("integrand times area element", SAME(o, quad([own(rn, i.u), own(rn, i.v)], f)))]))
    out.append(H("surface gauss(2)", dict(u=Arr(2), v=Arr(3)), lambda i: (integrate_surface(ofun("f", 3), r(), i.u, i.v, method=gauss(2)), gauss(2)(i.u), gauss(2)(i.v)),
                 lambda i, o: [("integrand times area element", SAME(o[0], quad([o[1], o[2]], f)))]))
    out.append(H("surface default rule", dict(u=Arr(2), v=Arr(2)), lambda i: (integrate_surface(ofun("f", 3), r(), i.u, i.v), gauss(5)(i.u), gauss(5)(i.v)),
                 lambda i, o: [("Gauss with 5 nodes", SAME(o[0], quad([o[1], o[2]], f)))]))
    out.append(H("surface arguments", dict(u=Arr(2), v=Arr(2), p=Arr(), q=Arr()),
                 lambda i: integrate_surface(lambda y, p, q=0.0: ofun("f", 5)(jnp.concatenate([y, p[None], jnp.asarray(q, float)[None]])), r(), i.u, i.v, i.p, method=trap, q=i.q),
                 lambda i, o: [("reach the integrand", SAME(o, quad([own("trap", i.u), own("trap", i.v)], lambda y: app("f", y + [i.p, i.q]))))]))
    out.append(H("surface vector and pytree integrands", dict(u=Arr(2), v=Arr(2)),
                 lambda i: integrate_surface(lambda y: dict(a=ovec("f", 3, 2)(y), b=ofun("g", 3)(y)), r(), i.u, i.v, method=trap),
                 lambda i, o: [("vector", SAME(o["a"], oarr([quad([own("trap", i.u), own("trap", i.v)], lambda y, k=k: app(f"f{k}", y)) for k in range(2)]))),
                               ("scalar", SAME(o["b"], quad([own("trap", i.u), own("trap", i.v)], lambda y: app("g", y))))]))
    for d in (2,):
        out.append(H("a parametrisation into the plane is refused", dict(u=Arr(2), v=Arr(2)),
                     lambda i: raised(lambda: integrate_surface(ofun("f", 2), ovec("p", 2, 2), i.u, i.v, method=trap)), lambda i, o: [("raises", o)]))
    # flat parallelogram patches: exact areas, any orientation of the patch in space
    out.append(H("area of a flat patch", dict(a=Arr(3), b=Arr(3), c=Arr(3), u=Arr(3), v=Arr(2)),
                 lambda i: [integrate_surface(lambda y: 1.0 + 0 * y[0], lambda w: i.c + w[0] * i.a + w[1] * i.b, i.u, i.v, method=m) for m in (midpoint, trap, simpson)],
                 lambda i, o: [(f"|a x b| du dv ({k})", EQ(o[j], SQRT(sumsq(crossp(i.a, i.b))) * (i.u[2] - i.u[0]) * (i.v[1] - i.v[0]))) for j, k in enumerate(RULES)]))
    # elements
    F6 = lambda y, c: app("f", y + c)

    def elem(i, rn, F=F6, rules=None):
        return oarr([[quad([own(rn, pu), own(rn, pv)], lambda y, c=R([(pu[0] + pu[1]) / 2, (pv[0] + pv[1]) / 2]): F(y, c)) for pv in pieces(i.v)] for pu in pieces(i.u)])

    for rn in ("midpoint", "trap"):
        for m, n in ((2, 3), (3, 2), (3, 3)):
            out.append(H(f"elements {rn} {m}x{n}", dict(u=Arr(m), v=Arr(n)),
                         lambda i, rn=rn: integrate_surface_elements(lambda y, c: ofun("f", 6)(jnp.concatenate([y, c])), r(), i.u, i.v, method=RULES[rn]),
                         lambda i, o, rn=rn: [("one integral per element [u, v], with its centre", SAME(o, elem(i, rn)))]))
    out.append(H("elements arguments", dict(u=Arr(2), v=Arr(3), p=Arr(), q=Arr()),
                 lambda i: integrate_surface_elements(lambda y, c, p, q=0.0: ofun("f", 8)(jnp.concatenate([y, c, p[None], jnp.asarray(q, float)[None]])), r(), i.u, i.v, i.p, method=trap, q=i.q),
                 lambda i, o: [("reach the integrand", SAME(o, elem(i, "trap", lambda y, c: app("f", y + c + [i.p, i.q]))))]))
    out.append(H("elements vector and pytree integrands", dict(u=Arr(3), v=Arr(2)),
                 lambda i: integrate_surface_elements(lambda y, c: dict(a=ovec("f", 3, 2)(y), b=ofun("g", 3)(c)), r(), i.u, i.v, method=midpoint),
                 lambda i, o: [("vector", AND(*[SAME(oarr([[o["a"][k, l, j] for l in range(1)] for k in range(2)]), elem(i, "midpoint", lambda y, c, j=j: app(f"f{j}", y))) for j in range(2)])),
                               ("scalar", SAME(o["b"], elem(i, "midpoint", lambda y, c: app("g", c))))]))
    out.append(H("elements default rule", dict(u=Arr(2), v=Arr(2)), lambda i: (integrate_surface_elements(lambda y, c: ofun("f", 3)(y), r(), i.u, i.v), gauss(5)(i.u), gauss(5)(i.v)),
                 lambda i, o: [("Gauss with 5 nodes", SAME(o[0], oarr([[quad([o[1], o[2]], f)]])))]))
    for rn in ("midpoint", "trap"):
        out.append(H(f"elements add up to the surface {rn}", dict(u=Arr(3), v=Arr(3)),
                     lambda i, rn=rn: (jnp.sum(integrate_surface_elements(lambda y, c: ofun("f", 3)(y), r(), i.u, i.v, method=RULES[rn])), integrate_surface(ofun("f", 3), r(), i.u, i.v, method=RULES[rn])),
                     lambda i, o: [("sum = whole", EQ(o[0], o[1]))]))
    for bad in (dict(u=Arr(1), v=Arr(2)), dict(u=Arr(2), v=Arr(1)), dict(u=Arr(2, 2), v=Arr(2)), dict(u=Arr(2), v=Arr(2, 2))):
        out.append(H("elements refuse node arrays " + "x".join(str(s.shape) for s in bad.values()), bad,
                     lambda i: raised(lambda: integrate_surface_elements(lambda y, c: ofun("f", 3)(y), r(), i.u, i.v, method=trap)), lambda i, o: [("raises", o)]))
    # centres
    out.append(H("centre of a patch", dict(u=Arr(2), v=Arr(2)), lambda i: center(r(), i.u, i.v),
                 lambda i, o: [("image of the parameter midpoint", SAME(o, oarr(R([(i.u[0] + i.u[1]) / 2, (i.v[0] + i.v[1]) / 2]))))]))
    for m, n in ((2, 2), (3, 4), (4, 3)):
        out.append(H(f"midpoints {m}x{n}", dict(u=Arr(m), v=Arr(n)), lambda i: midpoints(r(), i.u, i.v),
                     lambda i, o: [("centres ordered [u, v]", SAME(o, oarr([[R([(a[0] + a[1]) / 2, (b[0] + b[1]) / 2]) for b in pieces(i.v)] for a in pieces(i.u)])))]))
    # reparametrisation invariance
    out.append(H("orientation does not matter", dict(u=Arr(2), v=Arr(2)),
                 lambda i: (integrate_surface(ofun("f", 3), r(), i.u, i.v, method=trap), integrate_surface(ofun("f", 3), lambda w: r()(w[::-1]), i.v, i.u, method=trap)),
                 lambda i, o: [("swapping u and v", EQ(o[0], o[1]))]))
    return out

