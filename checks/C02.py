"""Normalisation of the R-function systems on the boundary."""
from .common import *
from magpi.r_fun import RAlpha, RP, RhoBlending, r0, r1, rp2, rp4

INFO = dict(
    bounds="regular boundary points (one operand zero, the other of either strict sign, any magnitude); alpha symbolic in (-1,1]; RP(p) for p = 2, 4, 6, all partial derivatives of order <= min(p-1, 3) (thorough: p-1)",
    outside="the corner where both operands vanish; p > 6; RAlphaM, which is documented as not normalised")


def d1(op, a, b):
    return jax.grad(op, (0, 1))(a, b)


def first(i, o):
    b = i.b
    out = []
    for k, (which, ga, gb) in o.items():
        pass
    return out


def harnesses():
    out = []
    systems = dict(RAlpha=lambda i: RAlpha(i.alpha), RP2=lambda i: RP(2), RP4=lambda i: RP(4), RP6=lambda i: RP(6),
                   r0=lambda i: r0, r1=lambda i: r1, rp2=lambda i: rp2, rp4=lambda i: rp4)
    for n, mk in systems.items():
        inputs = dict(b=Arr())
        if n == "RAlpha":
            inputs["alpha"] = Arr(lo=-1, lo_strict=True, hi=1)

        def fn(i, mk=mk):
            S = mk(i)
            z = jnp.zeros(())
            return dict(c=d1(S.conjunction, z, i.b), cs=d1(S.conjunction, i.b, z),
                        d=d1(S.disjunction, z, i.b), ds=d1(S.disjunction, i.b, z))

        def claim(i, o):
            b = i.b
            return [
                ("conjunction: active operand has unit slope", IMP(P(b), AND(EQ(o["c"][0], 1), EQ(o["c"][1], 0), EQ(o["cs"][1], 1), EQ(o["cs"][0], 0)))),
                ("disjunction: active operand has unit slope", IMP(N(b), AND(EQ(o["d"][0], 1), EQ(o["d"][1], 0), EQ(o["ds"][1], 1), EQ(o["ds"][0], 0)))),
                ("conjunction outside: slope of the negative operand is positive", IMP(N(b), P(o["c"][1]))),
                ("disjunction inside: slope of the positive operand is positive", IMP(P(b), P(o["d"][1])))]

        out.append(H(f"first order {n}", inputs, fn, claim, assume=lambda i: [tm.ne(i.b, tm.ZERO)]))

    def rho_fn(i):
        S = RhoBlending(i.rho)
        z = jnp.zeros(())
        return d1(S.conjunction, z, i.b), d1(S.disjunction, z, -i.b)

    out.append(H("first order RhoBlending beyond rho", dict(b=pos(), rho=pos()), rho_fn,
                 lambda i, o: [("unit slope", AND(EQ(o[0][0], 1), EQ(o[0][1], 0), EQ(o[1][0], 1), EQ(o[1][1], 0)))],
                 assume=lambda i: [i.b > i.rho]))

    for p in (4, 6):
        for order in range(2, p):
            def fn(i, p=p, order=order):
                S = RP(p)

                def f(op):
                    g = lambda u: op(u[0], u[1])
                    for _ in range(order):
                        g = jax.jacfwd(g)
                    return g

                z = jnp.zeros(())
                return f(S.conjunction)(jnp.stack([z, i.b])), f(S.disjunction)(jnp.stack([z, -i.b]))

            out.append(H(f"RP({p}) derivatives of order {order} vanish", dict(b=pos()), fn,
                         lambda i, o: [("conjunction", EQ(o[0], 0)), ("disjunction", EQ(o[1], 0))],
                         tier="quick" if order <= 3 else "thorough"))
    for n, S in (("rp4", rp4),):
        def fn(i, S=S):
            z = jnp.zeros(())
            g = lambda u: S.conjunction(u[0], u[1])
            h2 = jax.jacfwd(jax.jacfwd(g))
            return h2(jnp.stack([z, i.b])), jax.jacfwd(h2)(jnp.stack([z, i.b]))

        out.append(H("rp4 normalised to third order", dict(b=pos()), fn, lambda i, o: [("2nd", EQ(o[0], 0)), ("3rd", EQ(o[1], 0))]))
    return out
