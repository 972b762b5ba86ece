"""One trust region iteration: consistent state, sufficient decrease, step inside the region."""
import numpy as np
from .common import *
import jaxopt
from magpi.opt import TR
from magpi.tr import TrState, CgSteihaugResult

INFO = dict(bounds="any smooth objective (uninterpreted, with extra arguments and auxiliary output) in 1-2 variables or a pytree of them, any point, any radius and options; one iteration with at most one CG step (histories follow by induction: the state after an iteration satisfies the assumptions on the state before it)",
            outside="more CG steps per iteration (the sub-problem solver has its own property)")


def state(i, n, g=None, p=None, aux=None):
    z = jnp.zeros(n)
    return TrState(iter_num=i.it, accepted=jnp.asarray(False), value=i.v0, grad=z if g is None else g, error=i.e0, rho=jnp.zeros(()), tr_radius=i.D, aux=aux,
                   subproblem_result=CgSteihaugResult(jnp.asarray(0), jnp.asarray(False), jnp.asarray(False), jnp.zeros(()), jnp.zeros(()), z if p is None else p, i.eps, jnp.asarray(jnp.inf)))


def harnesses():
    out = []
    BASE = dict(D=pos(), Dmin=pos(), Dmax=pos(), it=Arr(kind="I", lo=0, hi=1000), eps=pos(), v0=Arr(), e0=Arr(lo=0), tol=pos(), ra=pos(), rd=pos())

    def unpack(r):
        s = r.state
        q = s.subproblem_result
        return dict(x=r.params, it=s.iter_num, acc=s.accepted, val=s.value, grad=s.grad, err=s.error, rho=s.rho, D=s.tr_radius, aux=s.aux, p=q.p, len=q.step_length, eps=q.eps)

    def opts(i, **kw):
        return dict(min_tr_radius=i.Dmin, max_tr_radius=i.Dmax, tol=i.tol, rho_accept=i.ra, rho_decrease=i.rd, maxiter_steihaug=1, **kw)

    def asm(n, f="f", ext=lambda i: []):
        def a(i):
            g = grad(i, n, f, ext(i))
            return [LE(i.ra, i.rd), LT(i.Dmin, i.D), LE(i.D, i.Dmax), LE(i.tol * i.tol, sumsq(g)), LT(0, sumsq(g)), LT(i.eps, i.tol)]
        return a

    def grad(i, n, f, ext=(), at=None):
        z = list(i.x if at is None else at) + list(ext)
        return [app(f, z, (k,)) for k in range(n)]

    def hess(i, n, f, ext=()):
        z = list(i.x) + list(ext)
        return [[app(f, z, tuple(sorted((k, l)))) for l in range(n)] for k in range(n)]

    def samp(n):
        def f(g):
            D = float(g.uniform(0.3, 2))
            rd = float(g.uniform(0.1, 0.5))
            return dict(x=g.normal(size=n), D=D, Dmin=D * 0.01, Dmax=D * float(g.uniform(1, 3)), rd=rd, ra=rd * float(g.uniform(0.1, 1)), tol=0.01, eps=0.005)
        return f

    def claims(i, o, n, f="f", ext=(), hp=None):
        x, p = list(i.x), list(o["p"])
        y = [a + b for a, b in zip(x, p)]
        acc = AND(o["acc"])
        fx, fy = app(f, x + list(ext)), app(f, y + list(ext))
        g = grad(i, n, f, ext)
        gy = grad(i, n, f, ext, at=y)
        Hp = hp(p) if hp else [dot(r, p) for r in hess(i, n, f, ext)]
        pred = -(dot(g, p) + dot(p, Hp) / 2)
        return [("accepted exactly when the ratio reaches the threshold", IFF(acc, LE(i.ra, o["rho"]))),
                ("ratio of actual to predicted decrease", EQ(o["rho"] * pred, fx - fy)),
                ("accepted: the new point is x + p", IMP(acc, EQ(oarr(list(o["x"])), oarr(y)))),
                ("accepted: value there", IMP(acc, EQ(o["val"], fy))),
                ("accepted: gradient there", IMP(acc, EQ(oarr(list(o["grad"])), oarr(gy)))),
                ("accepted: error is the gradient norm there", IMP(acc, EQ(o["err"], SQRT(sumsq(gy))))),
                ("rejected: the point is kept", IMP(tm.not_(acc), EQ(oarr(list(o["x"])), oarr(x)))),
                ("rejected: value there", IMP(tm.not_(acc), EQ(o["val"], fx))),
                ("rejected: gradient there", IMP(tm.not_(acc), EQ(oarr(list(o["grad"])), oarr(g)))),
                ("rejected: error is the gradient norm there", IMP(tm.not_(acc), EQ(o["err"], SQRT(sumsq(g))))),
                ("counts iterations", EQ(o["it"], i.it + tm.iconst(1)))]

    def radius(i, o):
        return [("radius stays within its bounds", AND(LE(i.Dmin, o["D"]), LE(o["D"], i.Dmax))),
                ("a bad ratio shrinks the radius", IMP(LT(o["rho"], i.rd), EQ(o["D"], tm.ite(tm.lt(i.D / 4, i.Dmin), i.Dmin, i.D / 4)))),
                ("growing needs a good ratio", IMP(LT(i.D, o["D"]), LT(Fraction(3, 4), o["rho"])))]

    def descent(i, o, n, f="f", ext=()):
        x, p = list(i.x), list(o["p"])
        fx = app(f, x + list(ext))
        return [("the objective never increases", LE(o["val"], fx)), ("an accepted step decreases it", IMP(AND(o["acc"]), LT(o["val"], fx))), ("the step stays in the trust region", LE(sumsq(p), i.D * i.D)), ("its reported length", EQ(o["len"] * o["len"], sumsq(p)))]

    for n in (1, 2):
        def fn(i, n=n, **kw):
            return unpack(TR(ofun("f", n), **opts(i, **kw)).update(i.x, state(i, n)))
        I = dict(BASE, x=Arr(n))
        out.append(H(f"iteration {n}D", I, fn, lambda i, o, n=n: claims(i, o, n), assume=asm(n), sample=samp(n), while_bound=1, budget=200))
        out.append(H(f"radius {n}D", I, fn, radius, assume=asm(n), sample=samp(n), while_bound=1, budget=200))
        if n == 1:
            out.append(H(f"descent {n}D", I, fn, lambda i, o, n=n: descent(i, o, n), assume=asm(n), sample=samp(n), while_bound=1, budget=200))
    # every way to hand over the objective leads to the same iteration
    X1 = dict(BASE, x=Arr(1), a=Arr(), b=Arr())
    cat = lambda x, a, b: jnp.concatenate([x, jnp.asarray(a)[None], jnp.asarray(b)[None]])
    ext = lambda i: [i.a, i.b]
    f3 = lambda x, a, b=0.0: ofun("f", 3)(cat(x, a, b))
    h3 = lambda x, a, b=0.0: ofun("h", 3)(cat(x, a, b))
    forms = dict(plain=(lambda: f3, {}), aux=(lambda: (lambda x, a, b=0.0: (f3(x, a, b), h3(x, a, b))), dict(has_aux=True)),
                 value_and_grad=(lambda: jax.value_and_grad(f3), dict(value_and_grad=True)),
                 value_and_grad_aux=(lambda: jax.value_and_grad(lambda x, a, b=0.0: (f3(x, a, b), h3(x, a, b)), has_aux=True), dict(value_and_grad=True, has_aux=True)))

    def few(i, o, aux, hp=None):
        keep = {"ratio of actual to predicted decrease", "accepted: value there", "rejected: value there", "accepted: the new point is x + p", "rejected: the point is kept", "accepted: gradient there"}
        c = [t for t in claims(i, o, 1, ext=ext(i), hp=hp) if t[0] in keep]
        if aux:
            acc, x, y = AND(o["acc"]), list(i.x), [i.x[0] + o["p"][0]]
            c.append(("auxiliary output belongs to the returned point", AND(IMP(acc, EQ(o["aux"], app("h", y + ext(i)))), IMP(tm.not_(acc), EQ(o["aux"], app("h", x + ext(i)))))))
        return c

    for nm, (mk, kw) in forms.items():
        def fn(i, mk=mk, kw=kw):
            return unpack(TR(mk(), **opts(i, **kw)).update(i.x, state(i, 1, aux=jnp.zeros(()) if kw.get("has_aux") else None), i.a, b=i.b))
        out.append(H(f"objective given as {nm}", X1, fn, lambda i, o, kw=kw: few(i, o, kw.get("has_aux")), assume=asm(1, ext=ext), sample=samp(1), while_bound=1, budget=200))

        def f0(i, mk=mk, kw=kw):
            s = TR(mk(), **kw).init_state(i.x, i.a, b=i.b)
            return (s.value, s.grad, s.error) + ((s.aux,) if kw.get("has_aux") else ())
        out.append(H(f"initial state, objective given as {nm}", dict(x=Arr(1), a=Arr(), b=Arr()), f0,
                     lambda i, o, kw=kw: [("value", EQ(o[0], app("f", list(i.x) + ext(i)))), ("gradient", EQ(o[1][0], app("f", list(i.x) + ext(i), (0,)))), ("error", EQ(o[2] * o[2], app("f", list(i.x) + ext(i), (0,)) ** 2))]
                     + ([("auxiliary output", EQ(o[3], app("h", list(i.x) + ext(i))))] if kw.get("has_aux") else [])))
    # finite differences for the curvature
    def fd(i):
        return unpack(TR(f3, **opts(i, approx_hvp=True, fd_h=i.h)).update(i.x, state(i, 1), i.a, b=i.b))

    def fdc(i, o):
        hp = lambda p: [(app("f", [i.x[0] + i.h * p[0]] + ext(i), (0,)) - app("f", [i.x[0]] + ext(i), (0,))) / i.h]
        pred = app("f", list(i.x) + ext(i), (0,)) * o["p"][0] + o["p"][0] * hp(o["p"])[0] / 2
        # the differences need not be a quadratic model: the ratio exists when the predicted decrease is not zero
        return [(l, IMP(tm.not_(Z(pred)), c)) for l, c in few(i, o, False, hp=hp)]
    out.append(H("finite difference curvature", dict(X1, h=pos()), fd,
                 fdc,
                 assume=asm(1, ext=ext), sample=lambda g: dict(samp(1)(g), h=float(g.uniform(0.05, 0.5))), while_bound=1, budget=200))

    def cauchy(i, o, k):
        g = app("f", list(i.x) + (ext(i) if hasattr(i, "a") else []), (0,))
        sg = tm.ite(tm.lt(tm.ZERO, g), tm.ONE, -tm.ONE)
        ins = AND(LT(0, k), LT(ABS(g), k * i.D))
        return [("step of the quadratic model inside the region", IMP(ins, EQ(k * o["p"][0], -g))), ("step to the border otherwise", IMP(tm.not_(ins), EQ(o["p"][0], -sg * i.D)))]
    out.append(H("exact curvature", dict(BASE, x=Arr(1)), lambda i: unpack(TR(ofun("f", 1), **opts(i)).update(i.x, state(i, 1))),
                 lambda i, o: cauchy(i, o, app("f", list(i.x), (0, 0))), assume=asm(1), sample=samp(1), while_bound=1, budget=200))
    out.append(H("damped curvature", dict(BASE, x=Arr(1), lam=pos()), lambda i: unpack(TR(ofun("f", 1), **opts(i, damping_factor=i.lam)).update(i.x, state(i, 1))),
                 lambda i, o: cauchy(i, o, app("f", list(i.x), (0, 0)) + i.lam) + [t for t in claims(i, o, 1) if t[0] in ("ratio of actual to predicted decrease", "accepted: value there", "rejected: value there")],
                 assume=asm(1), sample=samp(1), while_bound=1, budget=200))
    # sub-problem tolerance
    def tolc(i, o):
        gn = ABS(app("f", list(i.x), (0,)))
        mn = lambda a, b: tm.ite(tm.lt(a, b), a, b)
        f = mn(tm.const(Fraction(1, 2)), SQRT(gn)) * gn
        t = mn(i.eps, f)
        return [("max(tol, min(previous, forcing term))", EQ(o["eps"], tm.ite(tm.lt(i.tol, t), t, i.tol)))]
    out.append(H("tolerance of the sub-problem", dict(BASE, x=Arr(1)), lambda i: dict(eps=TR(ofun("f", 1), **opts(i)).update(i.x, state(i, 1)).state.subproblem_result.eps), tolc,
                 assume=lambda i: [LE(i.ra, i.rd), LT(i.Dmin, i.D), LE(i.D, i.Dmax), LT(0, ABS(app("f", list(i.x), (0,))))], sample=samp(1), while_bound=1, budget=200))
    # pytrees, and resuming from a previous step
    def tree(i):
        f = lambda t: ofun("f", 2)(jnp.concatenate([t["u"], t["w"][None]]))
        t0 = dict(u=i.x[:1], w=i.x[1])
        z = dict(u=jnp.zeros(1), w=jnp.zeros(()))
        r = unpack(TR(f, **opts(i)).update(t0, state(i, 2, g=z, p=z)))
        r2 = unpack(TR(f, **opts(i)).update(jaxopt.OptStep(t0, None), state(i, 2, g=z, p=z)))
        q = unpack(TR(ofun("f", 2), **opts(i)).update(i.x, state(i, 2)))
        fl = lambda t: jnp.append(t["u"], t["w"])
        return [(fl(k["x"]), fl(k["grad"]), fl(k["p"]), k["val"], k["rho"], k["D"], k["err"], k["acc"]) for k in (r, r2)], (q["x"], q["grad"], q["p"], q["val"], q["rho"], q["D"], q["err"], q["acc"])
    out.append(H("pytree parameters", dict(BASE, x=Arr(2)), tree,
                 lambda i, o: [(f"same as the flat problem{w}: {nm}", IFF(o[0][j][k], o[1][k]) if nm == "accepted" else EQ(o[0][j][k], o[1][k])) for j, w in ((0, ""), (1, ", resumed")) for k, nm in enumerate(("point", "gradient", "step", "value", "ratio", "radius", "error", "accepted"))],
                 assume=asm(2), sample=samp(2), while_bound=1, budget=200))
    # a collapsed radius stops the iteration
    out.append(H("collapsed radius", dict(BASE, x=Arr(1)), lambda i: unpack(TR(ofun("f", 1), **opts(i)).update(i.x, state(i, 1))),
                 lambda i, o: [("nothing changes", AND(EQ(o["x"][0], i.x[0]), EQ(o["it"], i.it), EQ(o["val"], i.v0), EQ(o["err"], i.e0), EQ(o["D"], i.D), EQ(o["eps"], i.eps)))],
                 assume=lambda i: [LE(i.ra, i.rd), LE(i.D, i.Dmin)], sample=lambda g: dict(samp(1)(g), Dmin=3.0), while_bound=1, budget=200))
    # a stationary point is kept
    out.append(H("stationary point", dict(BASE, x=Arr(1)), lambda i: (lambda r: dict(x=r.params, val=r.state.value, err=r.state.error, D=r.state.tr_radius, grad=r.state.grad))(TR(ofun("f", 1), **opts(i)).update(i.x, state(i, 1))),
                 lambda i, o: [("kept, with its value", AND(EQ(o["x"][0], i.x[0]), EQ(o["val"], app("f", list(i.x))), EQ(o["err"], 0), EQ(o["grad"][0], 0))), ("radius within its bounds", AND(LE(i.Dmin, o["D"]), LE(o["D"], i.Dmax)))],
                 assume=lambda i: [LE(i.ra, i.rd), LT(i.Dmin, i.D), LE(i.D, i.Dmax)], subst=lambda i: {app("f", list(i.x), (0,)): tm.ZERO}, diff=False, while_bound=1, budget=200))
    out.append(H("optimality", dict(x=Arr(2), a=Arr(), b=Arr()), lambda i: TR(lambda x, a, b=0.0: ofun("f", 4)(cat(x, a, b))).optimality_fun(i.x, i.a, b=i.b),
                 lambda i, o: [("the gradient", EQ(o, oarr([app("f", list(i.x) + ext(i), (k,)) for k in range(2)])))]))
    return out
