"""Primitive shapes: sign, zero set and unit slope of their ADFs."""
from .common import *
from magpi.r_fun import cuboid, cube, sphere, cylinder, ellipsoid, r0, r1, rp2, rp4, RAlpha, RP, RAlphaM

INFO = dict(
    bounds="any point, any positive edge lengths / radii / half axes; cuboids in 1-3 dimensions for an arbitrary R-system (sign contract) and for concrete systems (r1: 1-3D, r0/rp4: 1D; slopes of r0/rp4: 1-2D, r0: 3D); spheres in 1-4, ellipsoids in 2-3 dimensions",
    outside="higher dimensions; points of the boundary where two faces meet, for the slope claims")


def box_truth(i, c, n):
    lo = [(-i.l[k] / 2 if c else tm.ZERO) for k in range(n)]
    hi = [(i.l[k] / 2 if c else i.l[k]) for k in range(n)]
    x = i.x
    ins = AND([tm.lt(lo[k], x[k]) for k in range(n)], [tm.lt(x[k], hi[k]) for k in range(n)])
    outs = OR([tm.lt(x[k], lo[k]) for k in range(n)], [tm.lt(hi[k], x[k]) for k in range(n)])
    return ins, outs


def harnesses():
    out = []
    for n in (1, 2, 3):
        for c in (False, True):
            cl = lambda i, o, n=n, c=c: sgn_claims("cuboid", o, *box_truth(i, c, n))
            out.append(H(f"cuboid {n}D centering={c} any system", dict(x=Arr(n), l=pos(n)),
                         lambda i, c=c: cuboid(i.l, c, stub_system())(i.x), cl, axioms=STUB_AXIOMS, concrete=STUB_CONCRETE))
            for sn, S in (("r1", r1), ("r0", r0), ("rp4", rp4), ("default", None)):
                if n > 1 and sn != "r1":
                    continue  # covered by "any system" together with C01
                kw = {} if S is None else dict(r_system=S)
                out.append(H(f"cuboid {n}D centering={c} {sn}", dict(x=Arr(n), l=pos(n)),
                             lambda i, c=c, kw=kw: cuboid(i.l, centering=c, **kw)(i.x), cl))
            # cube: one length for every dimension

            def cubecl(i, o, n=n, c=c):
                j = SimpleNamespace(x=i.x, l=[i.l] * n)
                return sgn_claims("cube", o, *box_truth(j, c, n))

            out.append(H(f"cube {n}D centering={c} any system", dict(x=Arr(n), l=pos()),
                         lambda i, c=c: cube(i.l, c, stub_system())(i.x), cubecl, axioms=STUB_AXIOMS, concrete=STUB_CONCRETE))
            if n < 2:
                out.append(H(f"cube {n}D centering={c} default", dict(x=Arr(n), l=pos()), lambda i, c=c: cube(i.l, c)(i.x), cubecl))
            # unit slope on the faces
            for sn, S in (("r0", r0), ("r1", r1), ("rp4", rp4)):
                if (n == 3 and sn == "rp4") or (n > 1 and sn == "r1"):
                    continue
                for k in range(n):
                    for up in (False, True):
                        def fn(i, c=c, S=S, k=k, up=up, n=n):
                            lo = -i.l / 2 if c else jnp.zeros(n)
                            hi = i.l / 2 if c else i.l
                            x = lo + i.u * (hi - lo)
                            x = x.at[k].set(hi[k] if up else lo[k])
                            f = cuboid(i.l, centering=c, r_system=S)
                            return f(x), jax.jacfwd(f)(x)

                        def cl2(i, o, k=k, up=up, n=n):
                            want = [tm.const((-1 if up else 1) if j == k else 0) for j in range(n)]
                            return [("zero on the face", Z(o[0])), ("unit inward slope", SAME(o[1], oarr(want)))]

                        asm = (lambda i, n=n: [tm.ne(i.u[j], tm.const(Fraction(1, 2))) for j in range(n)])
                        out.append(H(f"cuboid {n}D centering={c} {sn} face {k}{'+' if up else '-'}",
                                     dict(u=Arr(n, lo=0, hi=1, lo_strict=True, hi_strict=True), l=pos(n)), fn, cl2,
                                     # r1 = min has a kink in the mid planes
                                     assume=asm if sn == "r1" else None,
                                     tier="quick" if (n < 3 or (k == 0 and not up)) else "thorough"))
    for n in (1, 2, 3, 4):
        def scl(i, o):
            d = sumsq(i.x) - i.r * i.r
            return sgn_claims("sphere", o, N(d), P(d))

        out.append(H(f"sphere {n}D sign", dict(x=Arr(n), r=pos()), lambda i: sphere(i.r)(i.x), scl))

        def sfn(i):
            f = sphere(i.r)
            x = i.r * i.u
            return f(x), jax.jacfwd(f)(x), jax.grad(f)(x)

        out.append(H(f"sphere {n}D slope", dict(u=Arr(n), r=pos()), sfn,
                     lambda i, o: [("zero on the boundary", Z(o[0])), ("unit inward normal", SAME(o[1], -i.u)), ("unit inward normal (reverse mode)", SAME(o[2], -i.u))],
                     assume=lambda i: EQ(sumsq(i.u), 1), rules=lambda i, n=n: [(i.u[n - 1], 2, tm.ONE - sumsq(i.u[:n - 1]))], sample=_unit(n)))
    for n in (2, 3):
        def ccl(i, o):
            d = sumsq(i.x[:2]) - i.r * i.r
            return sgn_claims("cylinder", o, N(d), P(d))

        out.append(H(f"cylinder {n}D sign", dict(x=Arr(n), r=pos()), lambda i: cylinder(i.r)(i.x), ccl))

    def cfn(i):
        f = cylinder(i.r)
        x = jnp.stack([i.r * i.u[0], i.r * i.u[1], i.z])
        return f(x), jax.jacfwd(f)(x)

    out.append(H("cylinder slope", dict(u=Arr(2), r=pos(), z=Arr()), cfn,
                 lambda i, o: [("zero", Z(o[0])), ("unit inward normal", SAME(o[1], oarr([-i.u[0], -i.u[1], tm.ZERO])))],
                 assume=lambda i: EQ(sumsq(i.u), 1), rules=lambda i: [(i.u[1], 2, tm.ONE - i.u[0] * i.u[0])], sample=_unit(2)))
    for n in (2, 3):
        # every point is a * u
        def ecl(i, o):
            d = sumsq(i.u) - 1
            return sgn_claims("ellipsoid", o, N(d), P(d))

        out.append(H(f"ellipsoid {n}D sign", dict(u=Arr(n), a=pos(n)), lambda i: ellipsoid(i.a)(i.a * i.u), ecl))
        out.append(H(f"centre of spheres and ellipsoids {n}D", dict(a=pos(n), r=pos()),
                     lambda i, n=n: (jax.jacfwd(sphere(i.r))(jnp.zeros(n)), jax.jacfwd(ellipsoid(i.a))(jnp.zeros(n)), ellipsoid(i.a)(jnp.zeros(n)), jax.jacrev(sphere(i.r))(jnp.zeros(n))),
                     lambda i, o, n=n: [("gradient of the sphere is zero there", AND(EQ(o[0], oarr([0] * n)), EQ(o[3], oarr([0] * n)))),
                                        ("gradient of the ellipsoid is zero there", EQ(o[1], oarr([0] * n))), ("the ellipsoid is positive there", P(o[2]))]))

        def efn(i):
            f = ellipsoid(i.a)
            x = i.a * i.u
            return f(x), jax.jacfwd(f)(x)

        def ecl2(i, o, n=n):
            return [("zero on the boundary", Z(o[0])), ("unit slope", EQ(sumsq(o[1]), 1)),
                    ("slope points inwards", N(dot(o[1], [i.u[k] / i.a[k] for k in range(n)])))]

        out.append(H(f"ellipsoid {n}D slope", dict(u=Arr(n), a=pos(n)), efn, ecl2,
                     assume=lambda i: EQ(sumsq(i.u), 1), rules=lambda i, n=n: [(i.u[n - 1], 2, tm.ONE - sumsq(i.u[:n - 1]))], sample=_unit(n)))
    return out


def _unit(n):
    def f(rng):
        v = rng.normal(size=n)
        return dict(u=v / np.linalg.norm(v))

    return f
