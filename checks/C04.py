"""normalize_1st_order: keeps the body, makes the boundary slope one."""
import numpy as np
from .common import *
from magpi.r_fun import normalize_1st_order

INFO = dict(
    bounds="any smooth ADF (uninterpreted function with uninterpreted first and second derivatives), any point, scalar argument and vectors of 1-3 components",
    outside="more than three dimensions; points where value and gradient vanish together")


def harnesses():
    out = []
    for n in (0, 1, 2, 3):
        shape = () if n == 0 else (n,)
        m = max(n, 1)

        def adf(n=n):
            f = ofun("f", max(n, 1))
            return (lambda x: f(jnp.asarray(x)[None])) if n == 0 else f

        xs = lambda i, n=n: [i.x] if n == 0 else list(i.x)
        val = lambda i, xs=xs: app("f", xs(i))
        gr = lambda i, xs=xs, m=m: [app("f", xs(i), (k,)) for k in range(m)]

        def cl(i, o, val=val):
            f = val(i)
            return [("positive exactly where the ADF is", IFF(P(o), P(f))), ("negative exactly where the ADF is", IFF(N(o), N(f))),
                    ("zero exactly where the ADF is", IFF(Z(o), Z(f))), ("bounded by one", AND(LE(o, 1), LE(-1, o)))]

        out.append(H(f"sign {n}D", dict(x=Arr(*shape)), lambda i, adf=adf: normalize_1st_order(adf())(i.x), cl,
                     assume=lambda i, val=val, gr=gr: [P(val(i) ** 2 + sumsq(gr(i)))]))
        for mode, J in (("forward", jax.jacfwd), ("reverse", jax.jacrev)):
            def cl2(i, o, gr=gr, n=n):
                g = gr(i)
                nn = SQRT(sumsq(g))
                want = oarr([t / nn for t in g])
                return [("zero on the boundary", Z(o[0])),
                        ("boundary gradient is the unit normal", SAME(o[1], want[0] if n == 0 else want)),
                        ("unit slope", EQ(sumsq(o[1]), 1))]

            out.append(H(f"slope {n}D {mode}", dict(x=Arr(*shape)),
                         lambda i, adf=adf, J=J: (normalize_1st_order(adf())(i.x), J(normalize_1st_order(adf()))(i.x)), cl2,
                         assume=lambda i, gr=gr: [P(sumsq(gr(i)))], subst=lambda i, val=val: {val(i): tm.ZERO}, diff=False))
            out.append(H(f"critical point {n}D {mode}", dict(x=Arr(*shape)), lambda i, adf=adf, J=J: J(normalize_1st_order(adf()))(i.x),
                         lambda i, o: [("differentiable, with vanishing gradient", EQ(sumsq(o if isinstance(o, np.ndarray) and o.shape else [o]), 0))],
                         assume=lambda i, val=val: [tm.not_(Z(val(i)))], subst=lambda i, gr=gr: {g: tm.ZERO for g in gr(i)}, diff=False))
    return out
