"""Imposed Dirichlet, Neumann and initial conditions."""
import numpy as np
from .common import *
from magpi.model import impose_dirichlet_bc, impose_neumann_bc, impose_ic

INFO = dict(bounds="any model, ADF, boundary / initial data (uninterpreted), any point (1-3 components), time, start time and decay rate; vector valued models; argument selections, keyword arguments, decorator and direct form",
            outside="more than three dimensions and more positional arguments")


def F(name, n):
    """function of several arguments, concatenated"""
    f = ofun(name, n)
    return lambda *a, **k: f(jnp.concatenate([jnp.atleast_1d(t) for t in a] + [jnp.atleast_1d(k[q]) for q in sorted(k)]))


def FV(name, n, m):
    f = ovec(name, n, m)
    return lambda *a, **k: f(jnp.concatenate([jnp.atleast_1d(t) for t in a] + [jnp.atleast_1d(k[q]) for q in sorted(k)]))


def L(*a):
    return [t for x in a for t in np.asarray(x, dtype=object).reshape(-1)]


def harnesses():
    out = []
    # ---------------------------------------------------------------- Dirichlet
    for n in (1, 2, 3):
        out.append(H(f"dirichlet {n}D homogeneous", dict(x=Arr(n)), lambda i, n=n: impose_dirichlet_bc(F("l", n), F("u", n))(i.x),
                     lambda i, o: [("l u", EQ(o, app("l", L(i.x)) * app("u", L(i.x)))), ("zero on the boundary", IMP(Z(app("l", L(i.x))), Z(o)))]))
        out.append(H(f"dirichlet {n}D", dict(x=Arr(n)), lambda i, n=n: impose_dirichlet_bc(F("l", n), F("u", n), F("g", n))(i.x),
                     lambda i, o: [("l u + g", EQ(o, app("l", L(i.x)) * app("u", L(i.x)) + app("g", L(i.x)))), ("g on the boundary", IMP(Z(app("l", L(i.x))), EQ(o, app("g", L(i.x)))))]))
        out.append(H(f"dirichlet {n}D vector valued", dict(x=Arr(n)), lambda i, n=n: impose_dirichlet_bc(F("l", n), FV("u", n, 2), FV("g", n, 2))(i.x),
                     lambda i, o: [("l u + g", SAME(o, oarr([app("l", L(i.x)) * app(f"u{k}", L(i.x)) + app(f"g{k}", L(i.x)) for k in range(2)])))]))
    out.append(H("dirichlet decorator, time dependent data, keywords", dict(x=Arr(2), t=Arr(), c=Arr()),
                 lambda i: impose_dirichlet_bc(F("l", 2), g=F("g", 3), argnums_g=(0, 1))(F("u", 4))(i.x, i.t, c=i.c),
                 lambda i, o: [("l(x) u(x,t,c) + g(x,t)", EQ(o, app("l", L(i.x)) * app("u", L(i.x, i.t, i.c)) + app("g", L(i.x, i.t))))]))
    out.append(H("dirichlet argument selection", dict(t=Arr(), x=Arr(2), y=Arr()),
                 lambda i: (impose_dirichlet_bc(F("l", 2), F("u", 4), F("g", 1), argnums_adf=1, argnums_g=2)(i.t, i.x, i.y),
                            impose_dirichlet_bc(F("k", 3), F("u", 4), F("h", 2), argnums_adf=(1, 2), argnums_g=(2, 0))(i.t, i.x, i.y)),
                 lambda i, o: [("single", EQ(o[0], app("l", L(i.x)) * app("u", L(i.t, i.x, i.y)) + app("g", L(i.y)))),
                               ("several, in the given order", EQ(o[1], app("k", L(i.x, i.y)) * app("u", L(i.t, i.x, i.y)) + app("h", L(i.y, i.t))))]))
    out.append(H("dirichlet gradient on the boundary", dict(x=Arr(2)),
                 lambda i: jax.grad(impose_dirichlet_bc(F("l", 2), F("u", 2)))(i.x),
                 lambda i, o: [("normal derivative is free", SAME(o, oarr([app("l", L(i.x), (k,)) * app("u", L(i.x)) + app("l", L(i.x)) * app("u", L(i.x), (k,)) for k in range(2)])))]))
    # ---------------------------------------------------------------- Neumann
    for n in (1, 2, 3):
        l = lambda i, *d: app("l", L(i.x), d)
        u = lambda i, *d: app("u", L(i.x), d)
        h = lambda i: app("h", L(i.x))
        dn = lambda i, n=n, u=u, l=l: tm.add(tm.ZERO, *[u(i, k) * l(i, k) for k in range(n)])
        out.append(H(f"neumann {n}D value", dict(x=Arr(n)), lambda i, n=n: (impose_neumann_bc(F("l", n), F("u", n), F("h", n))(i.x), impose_neumann_bc(F("l", n), F("u", n))(i.x)),
                     lambda i, o, u=u, l=l, h=h, dn=dn: [("u - l (du/dn + h)", EQ(o[0], u(i) - l(i) * dn(i) - l(i) * h(i))), ("homogeneous", EQ(o[1], u(i) - l(i) * dn(i))),
                                                         ("unchanged on the boundary", IMP(Z(l(i)), EQ(o, u(i))))]))

        def der(i, n=n):
            m = impose_neumann_bc(F("l", n), F("u", n), F("h", n))
            m0 = impose_neumann_bc(F("l", n), F("u", n))
            nu = jax.grad(F("l", n))(i.x)
            return jax.jvp(m, (i.x,), (nu,))[1], jax.jvp(m0, (i.x,), (nu,))[1]
        out.append(H(f"neumann {n}D: derivative along the inner normal", dict(x=Arr(n)), der,
                     lambda i, o, h=h: [("equals -h on the boundary", EQ(o[0], -h(i))), ("vanishes on the boundary if homogeneous", EQ(o[1], 0))],
                     assume=lambda i, l=l, n=n: [EQ(sumsq([l(i, k) for k in range(n)]), 1)], subst=lambda i, l=l: {l(i): tm.ZERO}))
        out.append(H(f"neumann {n}D vector valued", dict(x=Arr(n)), lambda i, n=n: impose_neumann_bc(F("l", n), FV("u", n, 2), FV("h", n, 2))(i.x),
                     lambda i, o, n=n, l=l: [("componentwise", SAME(o, oarr([app(f"u{c}", L(i.x)) - l(i) * tm.add(tm.ZERO, *[app(f"u{c}", L(i.x), (k,)) * l(i, k) for k in range(n)]) - l(i) * app(f"h{c}", L(i.x)) for c in range(2)])))]))
    dnx = lambda i: tm.add(*[app("u", L(i.t, i.x, i.c), (1 + k,)) * app("l", L(i.x), (k,)) for k in range(2)])
    out.append(H("neumann decorator, argument selection, keywords", dict(t=Arr(), x=Arr(2), c=Arr()),
                 lambda i: impose_neumann_bc(F("l", 2), h=F("h", 3), argnums_adf=1, argnum_model=1, argnums_h=(1, 0))(F("u", 4))(i.t, i.x, c=i.c),
                 lambda i, o: [("normal derivative in the selected argument only", EQ(o, app("u", L(i.t, i.x, i.c)) - app("l", L(i.x)) * (dnx(i) + app("h", L(i.x, i.t)))))]))
    out.append(H("neumann, trailing arguments", dict(x=Arr(2), t=Arr(), s=Arr()),
                 lambda i: impose_neumann_bc(F("l", 2), F("u", 4), F("h", 1), argnums_h=2)(i.x, i.t, i.s),
                 lambda i, o: [("value", EQ(o, app("u", L(i.x, i.t, i.s)) - app("l", L(i.x)) * (tm.add(*[app("u", L(i.x, i.t, i.s), (k,)) * app("l", L(i.x), (k,)) for k in range(2)]) + app("h", L(i.s)))))]))
    # ---------------------------------------------------------------- initial conditions
    I = dict(x=Arr(2), t=Arr(), t0=Arr(), r=pos())
    dec = lambda i: exp(-i.r * (i.t - i.t0))
    ic = lambda i, o: [("documented decay", EQ(o, app("m", L(i.x)) * dec(i) + (1 - dec(i)) * app("u", L(i.x, i.t))))]
    out.append(H("ic", I, lambda i: impose_ic(F("m", 2), F("u", 3), i.t0, i.r)(i.x, i.t), ic))
    out.append(H("ic decorator", I, lambda i: impose_ic(F("m", 2), t0=i.t0, decay_rate=i.r)(F("u", 3))(i.x, i.t), ic))
    out.append(H("ic at the initial time", dict(x=Arr(2), t0=Arr(), r=pos()), lambda i: impose_ic(F("m", 2), F("u", 3), i.t0, i.r)(i.x, i.t0),
                 lambda i, o: [("m0", EQ(o, app("m", L(i.x))))]))
    out.append(H("ic vector valued", dict(x=Arr(2), t=Arr(), t0=Arr(), r=pos()), lambda i: impose_ic(FV("m", 2, 2), FV("u", 3, 2), i.t0, i.r)(i.x, i.t),
                 lambda i, o: [("componentwise", SAME(o, oarr([app(f"m{k}", L(i.x)) * dec(i) + (1 - dec(i)) * app(f"u{k}", L(i.x, i.t)) for k in range(2)])))]))
    out.append(H("ic defaults", dict(x=Arr(2), t=Arr()), lambda i: (impose_ic(F("m", 2), F("u", 3))(i.x, i.t), impose_ic(F("m", 2), F("u", 3))(i.x, jnp.zeros(()))),
                 lambda i, o: [("t0 = 0, rate 10", EQ(o[0], app("m", L(i.x)) * exp(-10 * i.t) + (1 - exp(-10 * i.t)) * app("u", L(i.x, i.t)))), ("initial condition", EQ(o[1], app("m", L(i.x))))]))
    out.append(H("ic argument selection, keywords", dict(s=Arr(), t=Arr(), x=Arr(2), c=Arr(), t0=Arr(), r=pos()),
                 lambda i: impose_ic(F("m", 3), F("u", 5), i.t0, i.r, argnums_m0=(2, 0), argnum_t=1)(i.s, i.t, i.x, c=i.c),
                 lambda i, o: [("value", EQ(o, app("m", L(i.x, i.s)) * dec(i) + (1 - dec(i)) * app("u", L(i.s, i.t, i.x, i.c))))]))
    out.append(H("ic single selected argument", dict(t=Arr(), x=Arr(2), t0=Arr(), r=pos()),
                 lambda i: impose_ic(F("m", 2), F("u", 3), i.t0, i.r, argnums_m0=1, argnum_t=0)(i.t, i.x),
                 lambda i, o: [("value", EQ(o, app("m", L(i.x)) * dec(i) + (1 - dec(i)) * app("u", L(i.t, i.x))))]))
    # ---------------------------------------------------------------- repeated use of one decorated model
    out.append(H("the same constrained model twice", dict(x=Arr(2), y=Arr(2)),
                 lambda i: (lambda d, n: (d(i.x), d(i.y), n(i.x), n(i.y)))(impose_dirichlet_bc(F("l", 2), F("u", 2), F("g", 2)), impose_neumann_bc(F("l", 2), F("u", 2), F("g", 2))),
                 lambda i, o: [("dirichlet", AND(*[EQ(o[k], app("l", L(x)) * app("u", L(x)) + app("g", L(x))) for k, x in ((0, i.x), (1, i.y))])),
                               ("neumann", AND(*[EQ(o[2 + k], app("u", L(x)) - app("l", L(x)) * (tm.add(*[app("u", L(x), (q,)) * app("l", L(x), (q,)) for q in range(2)]) + app("g", L(x)))) for k, x in ((0, i.x), (1, i.y))]))]))
    return out
