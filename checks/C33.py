"""Results can be differentiated: forward and reverse mode derivatives are the derivatives of the value."""
import numpy as np
from .common import *
from engine.symdiff import diff, kinks
from .C06 import Q, comps
from magpi.quaternions import Quaternion, quanternion_exp, quanternion_log, quaternion_rotation, quaternion_reflection, from_euler_angles, from_axis_angle
from magpi.integrate import midpoint, trap, simpson, gauss, integrate, integrate_disk, integrate_sphere
from magpi.surface_integral import integrate_surface, source_tensor, charge_tensor, scalar_potential_charge, vector_potential_charge
from magpi.ode import odeint, rk4, explicit_euler
from magpi.model import MLP, impose_dirichlet_bc, impose_neumann_bc, impose_ic
from magpi.spline import SplineActivation, basis, make_grid
from magpi.domain import transform_hypercube, transform_triangle, transform_circle, transform_annulus, transform_sphere, transform_sphere_bnd, transform_circle_bnd, transform_polyline, transform_hypercube_bnd, linear_map, affine_plane
from magpi.calc import laplace, divergence, hvp
from magpi import r_fun
from magpi.r_fun import RAlpha, RAlphaM, RP, RhoBlending

INFO = dict(bounds="any smooth user function (uninterpreted), any values of the inputs and parameters where no branch of the value changes and no root vanishes; both differentiation modes; quadrature, surface integrals, tensors, time stepping, networks, imposed conditions, splines, quaternions, R-functions and ADF transformations, domain transformations, differential operators",
            outside="points where a branch changes or a root vanishes (kinks); second derivatives; rejection sampling and the optimiser")


def D(name, ins, F, wrt, modes="fr", **kw):
    """F(i) depends on the inputs `wrt`; its Jacobians are its derivatives"""
    memo = []

    def fn(i):
        def g(*a):
            return F(ns_with(i, dict(zip(wrt, a))))
        a = [getattr(i, w) for w in wrt]
        n = tuple(range(len(wrt)))
        r = dict(y=g(*a))
        if "f" in modes:
            r["f"] = jax.jacfwd(g, argnums=n)(*a)
        if "r" in modes:
            r["r"] = jax.jacrev(g, argnums=n)(*a)
        return r

    def spec(i, y):
        ys = np.asarray(y, dtype=object)
        tabs = {}
        guard = kinks(list(ys.reshape(-1)))
        want = {}
        for k in np.ndindex(*ys.shape):
            for w, nm in enumerate(wrt):
                x = np.asarray(getattr(i, nm), dtype=object)
                for l in np.ndindex(*x.shape):
                    want[k, w, l] = diff(ys[k], x[l], tabs.setdefault((w, l), {}))
        return guard, want

    def cl(i, o):
        if i.ctx is not None:
            s = spec(i, o["y"])
            memo.append(s)
        elif len(memo) == 1:
            s = memo[0]
        else:
            return []
        guard, want = s
        c = []
        for m, title in (("f", "forward mode"), ("r", "reverse mode")):
            if m not in modes:
                continue
            for k, w, l in want:
                got = np.asarray(o[m][w], dtype=object)
                if got.shape != np.shape(o["y"]) + np.shape(getattr(i, wrt[w])):
                    return [("shape of the Jacobian", tm.FALSE)]
                c.append((f"{title}: d out{list(k)} / d {wrt[w]}{list(l)}", IMP(AND(*guard), EQ(got[k + l], want[k, w, l]))))
        return c
    return H(name, ins, fn, cl, **kw)


class ns_with:
    def __init__(self, i, over):
        self.__dict__.update(over)
        self._i = i

    def __getattr__(self, n):
        return getattr(self.__dict__["_i"], n)


def fp(n, nm="f"):
    """function of n coordinates and a parameter"""
    f = ofun(nm, n + 1)
    return lambda x, p: f(jnp.concatenate([x, jnp.broadcast_to(p, x.shape[:-1] + (1,))], -1))


def harnesses():
    out = []
    add = lambda *a, **k: out.append(D(*a, **k))
    # ---------------------------------------------------------- quadrature
    for rn, rule in dict(midpoint=midpoint, trap=trap, simpson=simpson, gauss=gauss(2)).items():
        add(f"integrate 1D {rn}", dict(d=Arr(3), p=Arr()), lambda i, rule=rule: integrate(lambda x: ofun("f", 2)(jnp.stack([x, jnp.broadcast_to(i.p, x.shape)], -1)), i.d, method=rule), ["d", "p"])
        add(f"integrate 2D {rn}, argument", dict(a=Arr(2), b=Arr(2), p=Arr()), lambda i, rule=rule: integrate(fp(2), [i.a, i.b], i.p, method=rule), ["a", "b", "p"])
        add(f"integrate 2D {rn}, keyword", dict(a=Arr(2), b=Arr(2), p=Arr()), lambda i, rule=rule: integrate(fp(2), [i.a, i.b], method=rule, p=i.p), ["p"])
    sect = dict(r=pos(), o=Arr(2), p=Arr(), a=pos(), u=Arr(), v=Arr())
    add("integrate_disk", sect, lambda i: integrate_disk(fp(2), i.r, i.o, 2, i.a, i.u, i.v, i.p, method=trap), ["r", "o", "p", "a", "u", "v"])
    add("integrate_disk, whole", dict(r=pos(), o=Arr(2), p=Arr()), lambda i: integrate_disk(fp(2), i.r, i.o, 2, method=trap, p=i.p), ["r", "o", "p"])
    add("integrate_sphere", dict(r=pos(), o=Arr(3), p=Arr()), lambda i: integrate_sphere(fp(3), i.r, i.o, 2, method=midpoint, p=i.p), ["r", "o", "p"])
    # ---------------------------------------------------------- surfaces
    def par(i):
        r = ovec("r", 3, 3)
        return lambda w: r(jnp.concatenate([w, i.s[None]]))
    SU = dict(u=Arr(2), v=Arr(2), s=Arr(), p=Arr())
    add("integrate_surface", SU, lambda i: integrate_surface(fp(3), par(i), i.u, i.v, i.p, method=midpoint), ["u", "v", "p", "s"])
    rr = ovec("r", 2, 3)
    add("source tensor", dict(u=Arr(2), v=Arr(2), x=Arr(3)), lambda i: source_tensor(i.x, ovec("r", 2, 3), i.u, i.v, method=midpoint, order=1, compute_jacfwd=False), ["x", "u", "v"], modes="f",
        assume=lambda i: [P(sumsq([a - app(f"r{k}", [(i.u[0] + i.u[1]) / 2, (i.v[0] + i.v[1]) / 2]) for k, a in enumerate(i.x)]))])
    add("charge tensor", dict(u=Arr(2), v=Arr(2), p=Arr()), lambda i: charge_tensor(fp(3), ovec("r", 2, 3), i.u, i.v, i.p, order=1), ["u", "v", "p"])
    add("scalar potential charge", dict(x=Arr(2), p=Arr()), lambda i: scalar_potential_charge(ofun("l", 2), lambda x: jnp.stack([fp(2, "a")(x, i.p), fp(2, "b")(x, i.p)]), lambda x: fp(2, "c")(x, i.p))(i.x), ["x", "p"])
    # ---------------------------------------------------------- time stepping
    def df(y, t, p):
        return ovec("f", 4, 2)(jnp.concatenate([y, t[None], p[None]]))
    add("odeint euler", dict(y=Arr(2), ts=Arr(3), p=Arr()), lambda i: odeint(df, i.y, i.ts, i.p, method=explicit_euler), ["y", "ts", "p"])
    add("odeint euler, unrolled", dict(y=Arr(2), ts=Arr(4), p=Arr()), lambda i: odeint(df, i.y, i.ts, i.p, method=explicit_euler, unroll=2)[-1], ["y", "p"])
    df1 = lambda y, t, p: ofun("f", 3)(jnp.stack([y, t, p]))
    add("odeint rk4", dict(y=Arr(), ts=Arr(2), p=Arr()), lambda i: odeint(df1, i.y, i.ts, i.p), ["y", "ts", "p"])
    # ---------------------------------------------------------- models
    act = lambda x: ofun("act", 1)(x[..., None])
    for a in ([2, 1], [1, 2, 1], [2, 2, 2], [1, 1, 1, 1]):
        L = len(a) - 1
        ins = {**{f"W{k}": Arr(a[k], a[k + 1]) for k in range(L)}, **{f"b{k}": Arr(a[k + 1]) for k in range(L)}, "x": Arr(a[0])}
        pr = lambda i, L=L: dict(params={"output_layer" if k == L - 1 else f"layers_{k}": dict(kernel=getattr(i, f"W{k}"), bias=getattr(i, f"b{k}")) for k in range(L)})
        for an, ac in (("any", act), ("tanh", None)):
            add(f"MLP {a} {an}", ins, lambda i, a=a, ac=ac, pr=pr: MLP(a[1:], ac).apply(pr(i), i.x), sorted(ins))
        if a == [1, 2, 1]:
            add(f"MLP {a} batch", dict(ins, x=Arr(2, 1)), lambda i, a=a, pr=pr: MLP(a[1:], act).apply(pr(i), i.x), sorted(ins))
    add("dirichlet", dict(x=Arr(2), p=Arr()), lambda i: impose_dirichlet_bc(ofun("l", 2), fp(2, "u"), lambda x: ofun("g", 2)(x))(i.x, i.p), ["x", "p"])
    add("neumann", dict(x=Arr(2), p=Arr()), lambda i: impose_neumann_bc(ofun("l", 2), fp(2, "u"), ofun("h", 2))(i.x, i.p), ["x", "p"])
    add("initial condition", dict(x=Arr(2), t=Arr()), lambda i: impose_ic(ofun("w", 2), lambda x, t: fp(2, "u")(x, t))(i.x, i.t), ["x", "t"])
    # ---------------------------------------------------------- splines
    inc = lambda i: [tm.lt(a, b) for a, b in zip(i.t[:-1], i.t[1:])]
    for deg in (1, 2, 3):
        add(f"basis degree {deg}", dict(x=Arr(), t=Arr(deg + 3)), lambda i, deg=deg: basis(i.x, i.t, degree=deg), ["x", "t"] if deg < 3 else ["x"], assume=inc,
            sample=lambda g, deg=deg: (lambda t: dict(t=t, x=g.uniform(t[0], t[-1])))(np.cumsum(g.uniform(0.2, 1, deg + 3)) - 2))
        mk = lambda deg=deg, **kw: SplineActivation(nodes=deg + 3, node_min=-1.5, node_max=2.0, degree=deg, grid_power=2.0, activation=act, **kw)
        add(f"spline activation degree {deg}", dict(x=Arr(2), c=Arr(2, 2)), lambda i, mk=mk: mk().apply(dict(params=dict(coefs=i.c)), i.x), ["x", "c"])
        if deg < 3:
            add(f"trainable spline activation degree {deg}", dict(x=Arr(1), c=Arr(1, 2), t=Arr(deg + 3)), lambda i, mk=mk: mk(parameterize_grid=True).apply(dict(params=dict(coefs=i.c), grids=dict(grid=i.t[None])), i.x), ["x", "c", "t"], assume=inc,
                sample=lambda g, deg=deg: (lambda t: dict(t=t, x=g.uniform(t[0], t[-1], 1)))(np.cumsum(g.uniform(0.2, 1, deg + 3)) - 2))
    # ---------------------------------------------------------- quaternions
    add("quaternion product", dict(q=Arr(4), p=Arr(4)), lambda i: comps(Q(i.q) * Q(i.p)), ["q", "p"])
    add("quaternion sum and norm", dict(q=Arr(4), p=Arr(4)), lambda i: jnp.append(comps(Q(i.q) - Q(i.p)), abs(Q(i.q))), ["q", "p"])
    add("quaternion reciprocal", dict(q=Arr(4)), lambda i: comps(Q(i.q).reciprocal()), ["q"], assume=lambda i: [P(sumsq(i.q))])
    add("quaternion division", dict(q=Arr(4), s=Arr()), lambda i: comps(Q(i.q) / i.s), ["q", "s"], assume=lambda i: [NOT(Z(i.s))])
    big = lambda i: [tm.le(tm.const(Fraction(1, 1000)), sumsq(i.q[1:]))]
    add("quaternion exponential", dict(q=Arr(4)), lambda i: comps(quanternion_exp(Q(i.q))), ["q"], assume=big)
    add("quaternion rotation", dict(q=Arr(4), x=Arr(3)), lambda i: quaternion_rotation(i.x, Q(i.q)), ["q", "x"], assume=lambda i: [P(sumsq(i.q))])
    add("reflection", dict(n=Arr(3), x=Arr(3)), lambda i: quaternion_reflection(i.x, i.n), ["n", "x"], assume=lambda i: [P(sumsq(i.n))])
    add("axis and angle", dict(a=Arr(), n=Arr(3)), lambda i: comps(from_axis_angle(i.a, i.n)), ["a", "n"], assume=lambda i: [P(sumsq(i.n))])
    add("Euler angles", dict(a=Arr(3)), lambda i: comps(from_euler_angles(i.a)), ["a"])
    # ---------------------------------------------------------- R-functions
    AB = dict(a=Arr(), b=Arr())
    al = Arr(lo=-1, lo_strict=True, hi=1)
    two = lambda S, i: jnp.stack([S.conjunction(i.a, i.b), S.disjunction(i.a, i.b)])
    add("RAlpha", dict(AB, alpha=al), lambda i: two(RAlpha(i.alpha), i), ["a", "b", "alpha"])
    for m in (0, 1, 2):
        add(f"RAlphaM {m}", dict(AB, alpha=al), lambda i, m=m: two(RAlphaM(m, i.alpha), i), ["a", "b", "alpha"])
    for p in (2, 4):
        add(f"RP {p}", AB, lambda i, p=p: two(RP(p), i), ["a", "b"])
    add("RhoBlending", dict(AB, rho=pos()), lambda i: two(RhoBlending(i.rho), i), ["a", "b", "rho"])
    f2, f3 = (lambda: ofun("f", 2)), (lambda: ofun("f", 3))
    for d, sh in ((2, "sphere"), (3, "sphere"), (3, "cylinder")):
        add(f"{sh} {d}D", dict(x=Arr(d), r=pos()), lambda i, sh=sh: getattr(r_fun, sh)(i.r)(i.x), ["x", "r"])
    for d in (1, 2, 3):
        add(f"cuboid {d}D", dict(x=Arr(d), l=pos(d)), lambda i: r_fun.cuboid(i.l, centering=True, r_system=r_fun.r1)(i.x), ["x", "l"])
    add("ellipsoid", dict(x=Arr(2), l=pos(2)), lambda i: r_fun.ellipsoid(i.l)(i.x), ["x", "l"])
    add("translate", dict(x=Arr(2), y=Arr(2)), lambda i: r_fun.translate(f2(), i.y)(i.x), ["x", "y"])
    add("scale", dict(x=Arr(2), s=pos()), lambda i: r_fun.scale(f2(), i.s)(i.x), ["x", "s"])
    add("scale without normalisation", dict(x=Arr(2), s=pos(2)), lambda i: r_fun.scale_without_normalization(f2(), i.s)(i.x), ["x", "s"])
    add("rotate2d", dict(x=Arr(2), a=Arr(), o=Arr(2)), lambda i: r_fun.rotate2d(f2(), i.a, i.o)(i.x), ["x", "a", "o"])
    add("rotate3d by Euler angles", dict(x=Arr(3), a=Arr(3), o=Arr(3)), lambda i: r_fun.rotate3d(f3(), i.a, o=i.o)(i.x), ["x", "o"])
    add("rotate3d about an axis", dict(x=Arr(3), a=Arr(), o=Arr(3)), lambda i: r_fun.rotate3d(f3(), i.a, rot_axis=jnp.array([0.0, 0.0, 1.0]), o=i.o)(i.x), ["x", "a", "o"])
    add("reflect", dict(x=Arr(2), n=Arr(2), o=Arr(2)), lambda i: r_fun.reflect(f2(), i.n, i.o)(i.x), ["x", "n", "o"], assume=lambda i: [P(sumsq(i.n))])
    add("project", dict(x=Arr(3), n=Arr(3), o=Arr(3)), lambda i: r_fun.project(f3(), i.n, i.o)(i.x), ["x", "n", "o"], assume=lambda i: [P(sumsq(i.n))])
    for ax in (0, 1):
        add(f"revolution about axis {ax}", dict(x=Arr(3)), lambda i, ax=ax: r_fun.revolution(f2(), ax)(i.x), ["x"])
    add("normalize_1st_order", dict(x=Arr(2)), lambda i: r_fun.normalize_1st_order(f2())(i.x), ["x"])
    # ---------------------------------------------------------- domains
    U = lambda n: Arr(n, lo=0, hi=1, lo_strict=True, hi_strict=True)
    add("hypercube transform", dict(x=U(2), l=Arr(2), u=Arr(2)), lambda i: transform_hypercube(i.x, i.l, i.u), ["x", "l", "u"])
    add("hypercube boundary transform", dict(x=U(1), l=Arr(2), e=pos(2)), lambda i: transform_hypercube_bnd(i.x, i.l, i.l + i.e), ["x", "l", "e"])
    T = dict(x=U(2), a=Arr(2), b=Arr(2), c=Arr(2))
    add("triangle transform", T, lambda i: transform_triangle(i.x, i.a, i.b, i.c), ["x", "a", "b", "c"])
    add("disk transform", dict(x=U(2), r=pos(), o=Arr(2)), lambda i: transform_circle(i.x, i.r, i.o), ["x", "r", "o"])
    add("circle transform", dict(x=U(1), r=pos(), o=Arr(2)), lambda i: transform_circle_bnd(i.x, i.r, i.o), ["x", "r", "o"])
    add("annulus transform", dict(x=U(2), a=pos(), e=pos(), o=Arr(2)), lambda i: transform_annulus(i.x, i.a, i.a + i.e, i.o), ["x", "a", "e", "o"])
    add("ball transform", dict(x=U(3), r=pos(), o=Arr(3)), lambda i: transform_sphere(i.x, i.r, i.o), ["x", "r", "o"])
    add("sphere transform", dict(x=U(2), r=pos(), o=Arr(3)), lambda i: transform_sphere_bnd(i.x, i.r, i.o), ["x", "r", "o"])
    add("polyline transform", dict(x=U(1), p=Arr(3, 2)), lambda i: transform_polyline(i.x, tuple(i.p)), ["p", "x"], modes="f", assume=lambda i: [P(sumsq(i.p[k + 1] - i.p[k])) for k in range(2)])
    add("linear map", dict(R=Arr(2, 2), X=Arr(2, 2)), lambda i: linear_map(i.R, i.X), ["X", "R"], assume=lambda i: [LE(Fraction(1, 100), (i.R[0, 0] * i.R[1, 1] - i.R[0, 1] * i.R[1, 0]) ** 2)])
    # ---------------------------------------------------------- operators
    add("Laplacian", dict(x=Arr(2), p=Arr()), lambda i: laplace(fp(2))(i.x, i.p), ["x", "p"])
    add("divergence", dict(x=Arr(2), p=Arr()), lambda i: divergence(lambda x, p: jnp.stack([fp(2, "f")(x, p), fp(2, "g")(x, p)]))(i.x, i.p), ["x", "p"])
    add("Hessian-vector product", dict(x=Arr(2), p=Arr(), v=Arr(2)), lambda i: hvp(lambda x: fp(2)(x, i.p), (i.x,), (i.v,)), ["x", "p", "v"])
    return out
