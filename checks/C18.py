"""Trust region radius: update rule, bounds, warm starts and option validation."""
import numpy as np
from .common import *
import jaxopt
from magpi.opt import TR
from magpi.tr import update_tr_radius, TrState, CgSteihaugResult

INFO = dict(bounds="any radius, ratio, step length, thresholds and factors; fresh and warm starts of any objective (uninterpreted) in 1-2 variables",
            outside="histories longer than one iteration follow by induction from the one-step claims")


def isclose(a, b):
    return LE(ABS(a - b), tm.const(Fraction(1, 10**8)) + tm.const(Fraction(1, 10**5)) * ABS(b))


def harnesses():
    out = []
    I = dict(D=pos(), Dmax=pos(), Dmin=pos(), rho=Arr(), s=Arr(lo=0), ri=Arr(lo=0), rd=Arr(lo=0), fi=Arr(lo=1), fd=Arr(lo=0, hi=1))
    ORD = lambda i: [LE(i.Dmin, i.D), LE(i.D, i.Dmax), LE(i.rd, i.ri)]
    fn = lambda i: update_tr_radius(i.D, i.Dmax, i.Dmin, i.rho, i.s, i.ri, i.rd, i.fi, i.fd)
    samp = lambda g: (lambda D, rd: dict(D=D, Dmin=D * g.uniform(0.1, 1), Dmax=D * g.uniform(1, 3), rd=rd, ri=rd + g.uniform(0, 0.5), rho=g.uniform(-1, 2), s=D if g.integers(2) else g.uniform(0, D)))(g.uniform(0.5, 2), g.uniform(0, 0.5))

    def cl(i, o):
        near = ABS(i.s - i.D)
        mx = lambda a: tm.ite(tm.lt(a, i.Dmin), i.Dmin, a)
        up = tm.ite(tm.lt(i.Dmax, i.D * i.fi), i.Dmax, i.D * i.fi)
        tiny, far = LE(near, i.D * Fraction(1, 10**8)), LT(i.D * Fraction(1, 10**4) + Fraction(1, 10**6), near)
        return [("within [min, max]", AND(LE(i.Dmin, o), LE(o, i.Dmax))),
                ("bad agreement shrinks by the decrease factor, not below the minimum", IMP(LT(i.rho, i.rd), EQ(o, mx(i.D * i.fd)))),
                ("good agreement at the border grows by the increase factor, not above the maximum", IMP(AND(LT(i.ri, i.rho), LE(i.rd, i.rho), tiny), EQ(o, up))),
                ("a step inside the region never grows it", IMP(AND(LE(i.rd, i.rho), far), EQ(o, i.D))),
                ("fair agreement keeps the radius", IMP(AND(LE(i.rd, i.rho), LE(i.rho, i.ri)), EQ(o, i.D))),
                ("grows only after good agreement", IMP(LT(i.D, o), LT(i.ri, i.rho))),
                ("shrinks only after bad agreement", IMP(LT(o, i.D), LT(i.rho, i.rd)))]
    out.append(H("radius update", I, fn, cl, assume=ORD, sample=samp))
    out.append(H("radius update, radius outside its bounds", I, fn, lambda i, o: [("never below the minimum", LE(i.Dmin, o)), ("never grows beyond the maximum", IMP(AND(LT(i.Dmax, o), LE(i.Dmin, i.Dmax)), LE(o, i.D)))],
                 assume=lambda i: [LE(i.Dmin, i.Dmax), LE(i.Dmin, i.D)], sample=samp))
    # fresh start
    for n in (1, 2):
        def ff(i, n=n):
            s = TR(ofun("f", n), init_tr_radius=i.D0).init_state(i.x)
            return s.iter_num, s.value, s.grad, s.error, s.tr_radius, s.accepted
        out.append(H(f"fresh start {n}D", dict(x=Arr(n), D0=pos()), ff,
                     lambda i, o, n=n: [("iteration 0", EQ(o[0], tm.iconst(0))), ("value", EQ(o[1], app("f", list(i.x)))), ("gradient", EQ(o[2], oarr([app("f", list(i.x), (k,)) for k in range(n)]))),
                                        ("error is the gradient norm", EQ(o[3], SQRT(sumsq([app("f", list(i.x), (k,)) for k in range(n)])))), ("initial radius", EQ(o[4], i.D0))]))

    # warm start
    def state(i, n):
        return TrState(iter_num=i.it, accepted=True, value=jnp.zeros(()), grad=jnp.zeros(n), error=jnp.zeros(()), rho=jnp.zeros(()), tr_radius=i.D, aux=None,
                       subproblem_result=CgSteihaugResult(0, False, False, jnp.zeros(()), jnp.zeros(()), jnp.zeros(n), jnp.zeros(()), jnp.zeros(())))

    def fw(i, n=2):
        t = TR(lambda x, a: ofun("f", n + 1)(jnp.append(x, a)), init_tr_radius=i.D0, min_tr_radius=i.Dmin)
        s = t.init_state(jaxopt.OptStep(i.x, state(i, n)), i.a)
        return s.iter_num, s.value, s.grad, s.error, s.tr_radius
    out.append(H("warm start", dict(x=Arr(2), a=Arr(), D0=pos(), Dmin=pos(), D=pos(), it=Arr(kind="I", lo=0, hi=1000)), fw,
                 lambda i, o: [("keeps counting", EQ(o[0], i.it)), ("value at the given point", EQ(o[1], app("f", list(i.x) + [i.a]))),
                               ("gradient at the given point", EQ(o[2], oarr([app("f", list(i.x) + [i.a], (k,)) for k in range(2)]))),
                               ("error is the gradient norm", EQ(o[3], SQRT(sumsq([app("f", list(i.x) + [i.a], (k,)) for k in range(2)])))),
                               ("keeps a usable radius", IMP(LT(i.Dmin, i.D), EQ(o[4], i.D))), ("a collapsed radius is reset", IMP(LE(i.D, i.Dmin), EQ(o[4], i.D0)))]))
    # options
    out.append(H("acceptance threshold above the shrink threshold is refused", dict(a=Arr(lo=0, hi=1), d=Arr(lo=0, hi=1)),
                 lambda i: (raised(lambda: TR(lambda x: x, rho_accept=i.a, rho_decrease=i.d), ValueError),),
                 lambda i, o: [("exactly then", IFF(o[0], LT(i.d, i.a)))]))
    return out
