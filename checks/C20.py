"""Steihaug's truncated CG: steps stay in the trust region and decrease the model."""
import numpy as np
from .common import *
from magpi.tr import steihaug

INFO = dict(bounds="any gradient, any symmetric Hessian (indefinite included), any radius and tolerance; 1-2 variables (pytrees included), up to 2 CG iterations",
            outside="more variables and CG iterations; floating point rounding; tolerance 0 with a vanishing residual")


def harnesses():
    out = []

    def mat(i, n):
        return jnp.asarray(i.H).reshape(1, 1) if n == 1 else jnp.array([[i.H[0], i.H[1]], [i.H[1], i.H[2]]])

    def smat(i, n):
        return [[i.H]] if n == 1 else [[i.H[0], i.H[1]], [i.H[1], i.H[2]]]

    def ins(n):
        return dict(g=Arr(n), H=Arr() if n == 1 else Arr(3), D=pos(), e=pos())

    def mv(A, x):
        return [dot(r, x) for r in A]

    def call(i, n, m, **kw):
        A = mat(i, n)
        return steihaug(i.g, lambda p: A @ p, i.D, i.e, maxiter=m, **kw)

    def res(r):
        return dict(p=r.p, len=r.step_length, it=r.iter_num, conv=r.converged, nr=r.norm_r, eps=r.eps, curv=r.curvature, lim=r.limit_step)

    def samp(n):
        def f(g):
            return dict(H=g.normal(size=3) * 2 if n == 2 else float(g.normal() * 2), g=g.normal(size=n), D=float(g.uniform(0.2, 3)), e=float(g.uniform(0.01, 0.5)))
        return f

    for n in (1, 2):
        for m in (1, 2):
            def basic(i, o, n=n, m=m):
                p = list(o["p"])
                gs = sumsq(i.g)
                small = LT(gs, i.e * i.e)
                return [("never leaves the trust region", LE(sumsq(p), i.D * i.D)),
                        ("reported length", EQ(o["len"] * o["len"], sumsq(p))), ("length is not negative", LE(0, o["len"])),
                        ("iterations", AND(LE(tm.iconst(0), o["it"]), LE(o["it"], tm.iconst(m)))),
                        ("no step when the gradient is below the tolerance", IMP(small, AND(EQ(sumsq(p), 0), EQ(o["it"], tm.iconst(0)), AND(o["conv"])))),
                        ("reported tolerance", EQ(o["eps"], i.e)),
                        ("on the border exactly when flagged", AND(IMP(EQ(o["len"], i.D), o["lim"]), IMP(o["lim"], LE(ABS(o["len"] - i.D), i.D * Fraction(1, 10**4) + Fraction(1, 10**6)))))]
            if (n, m) != (2, 2):
                out.append(H(f"step n={n} maxiter={m}", ins(n), lambda i, n=n, m=m: res(call(i, n, m)), basic, while_bound=m, sample=samp(n), budget=120))
        # one iteration: exactly the Cauchy point
        def cauchy(i, o, n=n):
            g, A = list(i.g), smat(i, n)
            gs = sumsq(g)
            gn = SQRT(gs)
            k = dot(g, mv(A, g))
            act = LE(i.e * i.e, gs)
            hit = OR(LE(k, 0), LE(k * i.D, gs * gn))
            return [("stops at the border along steepest descent", IMP(AND(act, hit), EQ(oarr(list(o["p"])), oarr([-t * i.D / gn for t in g])))),
                    ("minimiser along steepest descent otherwise", IMP(AND(act, tm.not_(hit)), EQ(oarr(list(o["p"])), oarr([-t * gs / k for t in g]))))]
        out.append(H(f"first iteration n={n}", ins(n), lambda i, n=n: res(call(i, n, 1)), cauchy, while_bound=1, sample=samp(n), budget=120))

        def decr(i, o, n=n):
            g, p, A = list(i.g), list(o["p"]), smat(i, n)
            return [("the model never increases", LE(2 * dot(g, p) + dot(p, mv(A, p)), 0)),
                    ("strict decrease", IMP(LE(i.e * i.e, sumsq(g)), LT(2 * dot(g, p) + dot(p, mv(A, p)), 0))),
                    ("descent direction", IMP(LE(i.e * i.e, sumsq(g)), LT(dot(g, p), 0)))]
        out.append(H(f"model decrease n={n}", ins(n), lambda i, n=n: res(call(i, n, 1)), decr, while_bound=1, sample=samp(n), budget=120))

    # one variable, two iterations: the exact minimiser of the model in the region
    def one(i, o):
        p, g = o["p"][0], i.g[0]
        act = LE(i.e, ABS(g))
        sg = tm.ite(LT(0, g)[0] if isinstance(LT(0, g), list) else LT(0, g), tm.ONE, -tm.ONE)
        return [("Newton step inside", IMP(AND(act, LT(0, i.H), LT(ABS(g), i.H * i.D)), EQ(i.H * p, -g))),
                ("border otherwise", IMP(AND(act, OR(LE(i.H, 0), LE(i.H * i.D, ABS(g)))), EQ(p, -sg * i.D))),
                ("converged", o["conv"])]
    out.append(H("one variable", ins(1), lambda i: res(call(i, 1, 2)), one, while_bound=2, sample=samp(1), budget=120))

    # two variables, two iterations, gradient along the first axis
    def ins2():
        return dict(c=pos(), H=Arr(3), D=pos(), e=pos())

    def call2(i):
        A = mat(i, 2)
        return steihaug(jnp.stack([i.c, 0.0 * i.c]), lambda p: A @ p, i.D, i.e, maxiter=2)

    def call3(i):
        A = mat(i, 2)
        return steihaug(jnp.array([1.0, 0.0]), lambda p: A @ p, i.D, i.e, maxiter=2)

    def one_(i):
        i.c = tm.ONE
        return i

    def drop(d):
        d.pop("c")
        return d

    def newton(i, o):
        g, A, p = [i.c, tm.ZERO], smat(i, 2), list(o["p"])
        r = [a + b for a, b in zip(mv(A, p), g)]
        return [("exact solution after two iterations, within tolerance, or on the border", OR(EQ(sumsq(r), 0), EQ(sumsq(p), i.D * i.D), LT(sumsq(r), i.e * i.e)))]
    samp2 = lambda g: dict(H=g.normal(size=3) * 2, c=float(g.uniform(0.2, 2)), D=float(g.uniform(0.2, 3)), e=float(g.uniform(0.01, 0.5)))
    samp_pd = lambda g: (lambda L: dict(H=np.array([L[0] ** 2, L[0] * L[1], L[1] ** 2 + L[2] ** 2]), c=float(g.uniform(0.2, 2)), D=float(g.uniform(1, 5)), e=float(g.uniform(0.01, 0.3))))(g.uniform(0.4, 2, size=3))
    PD = lambda i: [LT(0, i.H[0]), LT(0, i.H[0] * i.H[2] - i.H[1] * i.H[1])]
    out.append(H("two variables, positive definite", ins2(), lambda i: res(call2(i)), newton, while_bound=2, sample=samp_pd, budget=600, tier="thorough", assume=PD))
    out.append(H("two variables, positive definite, unit gradient", dict(H=Arr(3), D=pos(), e=pos()), lambda i: res(call3(i)), lambda i, o: newton(one_(i), o), while_bound=2, sample=lambda g: drop(samp_pd(g)), budget=200, assume=PD))

    def bound2(i, o):
        return [("never leaves the trust region", LE(sumsq(list(o["p"])), i.D * i.D))]
    out.append(H("two variables, two iterations", ins2(), lambda i: res(call2(i)), bound2, while_bound=2, sample=samp2, budget=600, tier="thorough"))
    out.append(H("two variables, two iterations, unit gradient", dict(H=Arr(3), D=pos(), e=pos()), lambda i: res(call3(i)), bound2, while_bound=2, sample=lambda g: drop(samp2(g)), budget=200))

    # pytrees and options do not change the result
    def tree(i):
        A = mat(i, 2)

        def hv(p):
            q = A @ jnp.concatenate([p["a"], p["b"][None]])
            return dict(a=q[:1], b=q[1])
        t = steihaug(dict(a=i.g[:1], b=i.g[1]), hv, i.D, i.e, maxiter=1)
        f = call(i, 2, 1)
        return t.p["a"][0], t.p["b"], t.step_length, f.p, f.step_length
    # the gradient is an eigenvector of curvature zero / along an axis
    flat = lambda i: jnp.array([[0.0 * i.b, i.b], [i.b, i.c]])
    out.append(H("no curvature along an axis", dict(a=Arr(), b=Arr(), c=Arr(), D=pos(), e=pos()), lambda i: res(steihaug(jnp.stack([i.a, 0.0 * i.a]), lambda p: flat(i) @ p, i.D, i.e, maxiter=1)),
                 lambda i, o: [("at the border along steepest descent", EQ(oarr(list(o["p"])), oarr([tm.ite(tm.lt(tm.ZERO, i.a), -i.D, i.D), 0]))), ("reported length", EQ(o["len"], i.D))],
                 while_bound=1, assume=lambda i: [LT(i.e * i.e, i.a * i.a)], sample=lambda g: dict(a=float(g.uniform(1, 2)), b=float(g.normal()), c=float(g.normal()), D=float(g.uniform(0.2, 3)), e=float(g.uniform(0.01, 0.5)))))
    out.append(H("no curvature at all", dict(g=Arr(2), D=pos(), e=pos()), lambda i: res(steihaug(i.g, lambda p: 0.0 * p, i.D, i.e, maxiter=1)),
                 lambda i, o: [("at the border along steepest descent", EQ(oarr([t * SQRT(sumsq(i.g)) for t in o["p"]]), oarr([-t * i.D for t in i.g])))],
                 while_bound=1, assume=lambda i: [LT(i.e * i.e, sumsq(i.g))], sample=lambda g: dict(g=np.array([1.0, 0.5]) * g.uniform(1, 2), D=float(g.uniform(0.2, 3)), e=float(g.uniform(0.01, 0.5)))))
    out.append(H("pytrees", ins(2), tree, lambda i, o: [("same as the flat problem", AND(EQ(oarr([o[0], o[1]]), oarr(list(o[3]))), EQ(o[2], o[4])))], while_bound=1, sample=samp(2), budget=120))
    out.append(H("default iteration limit", ins(1), lambda i: res(call(i, 1, None, unroll=False)), one, while_bound=2, sample=samp(1), budget=120))
    out.append(H("unrolled loops", ins(1), lambda i: (res(call(i, 1, 2, unroll=True)), res(call(i, 1, 2, unroll=False))), lambda i, o: [("same result", AND(EQ(o[0]["p"][0], o[1]["p"][0]), EQ(o[0]["len"], o[1]["len"])))],
                 while_bound=2, sample=samp(1), budget=120))
    return out
