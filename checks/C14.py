"""Integration over disks and balls (polar / spherical product quadrature)."""
from .common import *
from .C13 import own, grid
from magpi.integrate import midpoint, trap, simpson, gauss, integrate_disk, integrate_sphere

INFO = dict(bounds="any integrand (uninterpreted), any radius, centre, inner radius and angular range; 2-3 nodes per dimension; midpoint/trap/simpson",
            outside="more nodes; discretisation error of the quadrature itself")
RULES = dict(midpoint=midpoint, trap=trap, simpson=simpson)


def lin(a, b, n):
    a, b = tm.lift(a), tm.lift(b)
    return [a + (b - a) * Fraction(k, n - 1) for k in range(n)]


PI = tm.PI


def harnesses():
    out = []

    def disk_spec(i, rn, n, r0, p1, p2, F):
        wx = [own(rn, lin(r0, i.r, n[0])), own(rn, lin(p1, p2, n[1]))]
        return tm.add(tm.ZERO, *[w * x[0] * F([i.o[0] + x[0] * cos(x[1]), i.o[1] + x[0] * sin(x[1])]) for w, x in grid(wx)])

    def ball_spec(i, rn, n, r0, p1, p2, t1, t2, F):
        wx = [own(rn, lin(r0, i.r, n[0])), own(rn, lin(p1, p2, n[1])), own(rn, lin(t1, t2, n[2]))]
        return tm.add(tm.ZERO, *[w * x[0] ** 2 * sin(x[1]) * F([i.o[0] + x[0] * sin(x[1]) * cos(x[2]), i.o[1] + x[0] * sin(x[1]) * sin(x[2]), i.o[2] + x[0] * cos(x[1])]) for w, x in grid(wx)])

    f = lambda x: app("f", x)
    D = dict(r=pos(), o=Arr(2))
    S = dict(r=pos(), o=Arr(3))
    for rn, rule in RULES.items():
        for n in (2, (2, 3), (3, 2)):
            nn = n if isinstance(n, tuple) else (n, n)
            out.append(H(f"disk {rn} n={n}", D, lambda i, rule=rule, n=n: integrate_disk(ofun("f", 2), i.r, i.o, n, method=rule),
                         lambda i, o, rn=rn, nn=nn: [("full disk", SAME(o, disk_spec(i, rn, nn, 0, 0, 2 * PI, f)))]))
        out.append(H(f"disk sector {rn}", dict(D, a=pos(), p=Arr(), q=Arr()), lambda i, rule=rule: integrate_disk(ofun("f", 2), i.r, i.o, (2, 3), i.a, i.p, i.q, method=rule),
                     lambda i, o, rn=rn: [("annulus sector", SAME(o, disk_spec(i, rn, (2, 3), i.a, i.p, i.q, f)))]))
        out.append(H(f"disk sector by keyword {rn}", dict(D, a=pos(), p=Arr(), q=Arr()), lambda i, rule=rule: integrate_disk(ofun("f", 2), i.r, i.o, 2, r_inner=i.a, phi1=i.p, phi2=i.q, method=rule),
                     lambda i, o, rn=rn: [("annulus sector", SAME(o, disk_spec(i, rn, (2, 2), i.a, i.p, i.q, f)))]))
        if rn == "simpson":
            continue
        for n in (2, (2, 3, 2), (3, 2, 2), (2, 2, 3)):
            nn = n if isinstance(n, tuple) else (n,) * 3
            out.append(H(f"ball {rn} n={n}", S, lambda i, rule=rule, n=n: integrate_sphere(ofun("f", 3), i.r, i.o, n, method=rule),
                         lambda i, o, rn=rn, nn=nn: [("full ball", SAME(o, ball_spec(i, rn, nn, 0, 0, PI, 0, 2 * PI, f)))]))
        out.append(H(f"ball sector {rn}", dict(S, a=pos(), p=Arr(), q=Arr(), s=Arr(), t=Arr()),
                     lambda i, rule=rule: integrate_sphere(ofun("f", 3), i.r, i.o, 2, i.a, i.p, i.q, i.s, i.t, method=rule),
                     lambda i, o, rn=rn: [("shell sector", SAME(o, ball_spec(i, rn, (2,) * 3, i.a, i.p, i.q, i.s, i.t, f)))]))
        out.append(H(f"ball sector by keyword {rn}", dict(S, a=pos(), p=Arr(), q=Arr(), s=Arr(), t=Arr()),
                     lambda i, rule=rule: integrate_sphere(ofun("f", 3), i.r, i.o, 2, theta2=i.t, theta1=i.s, phi2=i.q, phi1=i.p, r_inner=i.a, method=rule),
                     lambda i, o, rn=rn: [("shell sector", SAME(o, ball_spec(i, rn, (2,) * 3, i.a, i.p, i.q, i.s, i.t, f)))]))
    out.append(H("ball simpson", S, lambda i: integrate_sphere(ofun("f", 3), i.r, i.o, 2),
                 lambda i, o: [("default rule, full ball", SAME(o, ball_spec(i, "simpson", (2,) * 3, 0, 0, PI, 0, 2 * PI, f)))]))
    out.append(H("disk default rule", D, lambda i: integrate_disk(ofun("f", 2), i.r, i.o, 2),
                 lambda i, o: [("Simpson", SAME(o, disk_spec(i, "simpson", (2, 2), 0, 0, 2 * PI, f)))]))
    # extra arguments, pytrees
    out.append(H("disk arguments", dict(D, p=Arr(), q=Arr()),
                 lambda i: integrate_disk(lambda x, p, q=0.0: ofun("f", 4)(jnp.concatenate([x, p[None], jnp.asarray(q, float)[None]])), i.r, i.o, 2, 0.0, 0.0, 1.0, i.p, method=trap, q=i.q),
                 lambda i, o: [("reach the integrand", SAME(o, disk_spec(i, "trap", (2, 2), 0, 0, 1, lambda x: app("f", x + [i.p, i.q]))))]))
    out.append(H("ball arguments", dict(S, p=Arr(), q=Arr()),
                 lambda i: integrate_sphere(lambda x, p, q=0.0: ofun("f", 5)(jnp.concatenate([x, p[None], jnp.asarray(q, float)[None]])), i.r, i.o, 2, 0.0, 0.0, 1.0, 0.0, 1.0, i.p, method=trap, q=i.q),
                 lambda i, o: [("reach the integrand", SAME(o, ball_spec(i, "trap", (2,) * 3, 0, 0, 1, 0, 1, lambda x: app("f", x + [i.p, i.q]))))]))
    out.append(H("vector valued integrand", D, lambda i: integrate_disk(ovec("f", 2, 2), i.r, i.o, 2, method=trap),
                 lambda i, o: [("componentwise", SAME(o, oarr([disk_spec(i, "trap", (2, 2), 0, 0, 2 * PI, lambda x, k=k: app(f"f{k}", x)) for k in range(2)])))]))
    # exact areas
    for rn, rule in (("simpson", simpson), ("trap", trap), ("midpoint", midpoint)):
        out.append(H(f"area of an annulus sector {rn}", dict(D, a=pos(), p=Arr(), q=Arr()), lambda i, rule=rule: integrate_disk(lambda x: 1.0 + 0 * x[0], i.r, i.o, 3, i.a, i.p, i.q, method=rule),
                     lambda i, o: [("(R^2 - r^2) dphi / 2", EQ(o, (i.r * i.r - i.a * i.a) * (i.q - i.p) / 2))]))
    out.append(H("area of a disk", D, lambda i: integrate_disk(lambda x: 1.0 + 0 * x[0], i.r, i.o, 2), lambda i, o: [("pi r^2", EQ(o, PI * i.r * i.r))]))
    return out
