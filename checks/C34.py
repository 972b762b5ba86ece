"""Runs of the optimiser: updates until the tolerance or the iteration limit, warm starts, sensitivities of the result."""
import numpy as np
from .common import *
import jaxopt
from magpi.opt import TR

INFO = dict(bounds="any smooth objective (uninterpreted, extra arguments, auxiliary output) in one variable, any start and options; runs of no or one update with one CG step; sensitivities of the result with respect to parameters of the objective",
            outside="longer runs (each further update is one more application of the same step, see the trust region iteration)",
            assumptions=["jaxopt's loop is part of the traced code"])


def harnesses():
    out = []
    O = dict(tol=pos(), Dmin=pos(), D0=pos(), Dmax=pos(), ra=pos(), rd=pos())

    def opts(i, **kw):
        return dict(tol=i.tol, min_tr_radius=i.Dmin, init_tr_radius=i.D0, max_tr_radius=i.Dmax, rho_accept=i.ra, rho_decrease=i.rd, maxiter_steihaug=1, **kw)

    asm = lambda i: [LE(i.ra, i.rd), LT(i.Dmin, i.D0), LE(i.D0, i.Dmax), LE(i.tol, ABS(app("f", [i.x[0], i.a], (0,))))]

    def samp(g):
        D = float(g.uniform(0.3, 2))
        rd = float(g.uniform(0.1, 0.5))
        return dict(D0=D, Dmin=D * 0.01, Dmax=D * float(g.uniform(1, 3)), rd=rd, ra=rd * float(g.uniform(0.1, 1)), tol=float(g.choice([1e-3, 0.1])))

    cat = lambda x, a: jnp.concatenate([jnp.ravel(x), jnp.ravel(jnp.asarray(a))])
    f2 = lambda x, a=0.0: ofun("f", 2)(cat(x, a))
    h2 = lambda x, a=0.0: ofun("h", 2)(cat(x, a))

    def unpack(r, aux=False):
        s = r.state
        d = dict(x=r.params, it=s.iter_num, acc=s.accepted, val=s.value, grad=s.grad, err=s.error, D=s.tr_radius)
        if aux:
            d["aux"] = s.aux
        return d

    def steps(i, n, mk, kw, aux, start=None):
        """the updates one by one"""
        s = TR(mk(), **opts(i, **kw))
        x = i.x if start is None else start
        st = s.init_state(x, i.a)
        p = x.params if isinstance(x, jaxopt.OptStep) else x
        seq = [jaxopt.OptStep(p, st)]
        for _ in range(n):
            seq.append(s.update(seq[-1].params, seq[-1].state, i.a))
        return [unpack(q, aux) for q in seq]

    forms = dict(plain=(lambda: f2, {}), aux=(lambda: (lambda x, a=0.0: (f2(x, a), h2(x, a))), dict(has_aux=True)),
                 value_and_grad=(lambda: jax.value_and_grad(f2), dict(value_and_grad=True)),
                 value_and_grad_aux=(lambda: jax.value_and_grad(lambda x, a=0.0: (f2(x, a), h2(x, a)), has_aux=True), dict(value_and_grad=True, has_aux=True)),
                 damped=(lambda: f2, dict(damping_factor=0.5)), differences=(lambda: f2, dict(approx_hvp=True, fd_h=0.01)), tolerant=(lambda: f2, dict(forcing_parameter=1.0, rho_increase=0.9, increase_factor=3.0, decrease_factor=0.5)))
    I = dict(O, x=Arr(1), a=Arr())
    KW = dict(assume=asm, sample=samp, while_bound=1, budget=300)
    for nm, (mk, kw0) in forms.items():
        for un, ex in (("", {}), (" without implicit differentiation", dict(implicit_diff=False))):
            if ex and nm != "plain" or nm == "differences":   # with differences the predicted decrease may vanish
                continue
            kw = dict(kw0, maxiter=1, **ex)
            aux = bool(kw.get("has_aux"))

            def fn(i, mk=mk, kw=kw, aux=aux):
                return dict(run=unpack(TR(mk(), **opts(i, **kw)).run(i.x, i.a), aux), steps=steps(i, 1, mk, kw, aux))

            def cl(i, o):
                return [(f"{q} after the run", SAME(np.asarray(o["run"][q], dtype=object).reshape(-1), np.asarray(o["steps"][1][q], dtype=object).reshape(-1))) for q in o["run"]]
            out.append(H(f"run of one update, objective {nm}{un}", I, fn, cl, **KW))
        # the limit of no updates returns the start
        def f0(i, mk=mk, kw0=kw0):
            r = TR(mk(), **opts(i, **kw0, maxiter=0)).run(i.x, i.a)
            return r.params, r.state.value, r.state.grad, r.state.tr_radius, r.state.iter_num
        z = lambda i: [i.x[0], i.a]
        out.append(H(f"run of no updates, objective {nm}", I, f0, lambda i, o, z=z: [("the start", EQ(o[0][0], i.x[0])), ("its value", EQ(o[1], app("f", z(i)))), ("its gradient", EQ(o[2][0], app("f", z(i), (0,)))), ("the initial radius", EQ(o[3], i.D0)), ("no iterations", EQ(o[4], tm.iconst(0)))], **KW))
        # sensitivity of the result by the implicit function theorem
        solve = lambda mv, b, **k: b / mv(jnp.ones_like(b))

        def fs(i, mk=mk, kw0=kw0):
            kw = dict(maxiter=0, implicit_diff_solve=solve, **kw0)
            g = lambda a: TR(mk(), **opts(i, **kw)).run(i.x, a).params
            gk = lambda a: TR(mk(), **opts(i, **kw)).run(i.x, a=a).params
            return g(i.a), jax.jacrev(g)(i.a), jax.jacrev(gk)(i.a), jax.vmap(jax.grad(lambda a: g(a)[0]))(jnp.stack([i.a, i.a]))

        def cs(i, o, z=z):
            w = lambda j: IMP(tm.not_(Z(app("f", z(i), (0, 0)))), EQ(j * app("f", z(i), (0, 0)), -app("f", z(i), (0, 1))))
            return [("solves the linearised optimality condition", w(o[1][0])), ("keyword", w(o[2][0])), ("vectorised", AND(w(o[3][0]), w(o[3][1])))]
        out.append(H(f"sensitivity of the result, objective {nm}", I, fs, cs, **KW))
    return out
