"""Exponential, logarithm and powers of quaternions."""
from .common import *
from .C06 import Q, comps, ham, cj
from magpi.quaternions import Quaternion, quanternion_exp, quanternion_log

EPS = Fraction(1, 10**12)
INFO = dict(bounds="any quaternion whose vector part is zero or longer than 1e-12; bases and norms positive; integer powers -2..3 and square roots",
            outside="vector parts shorter than 1e-12 but nonzero; rounding",
            assumptions=["exp, log, cos, sin, arccos are the real functions, known to the solver through cos^2+sin^2=1, cos(arccos t)=t, exp(log t)=t, angle sums and monotonicity facts"])


def harnesses():
    out = []
    big = lambda i: [tm.le(tm.const(EPS * EPS), sumsq(i.q[1:]))]

    def ex(i, o):
        r = SQRT(sumsq(i.q[1:]))
        z = exp(i.q[0])
        return [("exp", SAME(o, oarr([z * cos(r)] + [z * t / r * sin(r) for t in i.q[1:]])))]

    out.append(H("exp", dict(q=Arr(4)), lambda i: comps(quanternion_exp(Q(i.q))), ex, assume=big))
    out.append(H("exp of a real", dict(a=Arr()), lambda i: comps(quanternion_exp(Quaternion(i.a, jnp.zeros(3)))),
                 lambda i, o: [("exp", SAME(o, oarr([exp(i.a), tm.ZERO, tm.ZERO, tm.ZERO])))]))

    def lg(i, o):
        r = SQRT(sumsq(i.q[1:]))
        n = SQRT(sumsq(i.q))
        ph = tm.fn("acos", i.q[0] / n)
        return [("log", SAME(o, oarr([tm.fn("log", n)] + [t / r * ph for t in i.q[1:]])))]

    out.append(H("log", dict(q=Arr(4)), lambda i: comps(quanternion_log(Q(i.q))), lg, assume=big))
    out.append(H("log of a positive real", dict(a=pos()), lambda i: comps(quanternion_log(Quaternion(i.a, jnp.zeros(3)))),
                 lambda i, o: [("log", SAME(o, oarr([tm.fn("log", i.a), tm.ZERO, tm.ZERO, tm.ZERO])))]))
    # the angle of the logarithm must be resolvable: |vector part| >= 1e-6 |q| keeps arg(q) > eps
    gen = lambda i: [tm.le(tm.const(Fraction(1, 10**6)), sumsq(i.q[1:])), tm.le(sumsq(i.q), tm.const(10**6))]
    out.append(H("exp(log q)", dict(u=Arr(3), c=Arr(lo=-1, hi=1, lo_strict=True, hi_strict=True), s=pos()), _explog,
                 lambda i, o: [("q", SAME(o[0], o[1]))], assume=_un, rules=_ru, sample=_samp))
    out.append(H("log(exp q)", dict(u=Arr(3), a=Arr(lo=-10, hi=10), r=Arr(lo=Fraction(1, 1000), hi=3)), lambda i: comps(quanternion_log(quanternion_exp(Quaternion(i.a, i.r * i.u)))),
                 lambda i, o: [("q", SAME(o, oarr([i.a] + [i.r * t for t in i.u])))], assume=_un, rules=_ru, sample=_samp))
    for k, label in ((2, "q*q"), (3, "q*q*q"), (-1, "reciprocal"), (1, "q"), (0, "one")):
        out.append(H(f"q**{k}", dict(u=Arr(3), c=Arr(lo=-1, hi=1, lo_strict=True, hi_strict=True), s=pos()), lambda i, k=k: _pow(i, float(k)),
                     lambda i, o, k=k: [(label, SAME(o[0], _power(o[1], k)))], assume=_un, rules=_ru, sample=_samp))
    out.append(H("sqrt", dict(u=Arr(3), c=Arr(lo=-1, hi=1, lo_strict=True, hi_strict=True), s=pos()), lambda i: _pow(i, 0.5),
                 lambda i, o: [("square is q", SAME(ham(o[0], o[0]), o[1])), ("principal", LE(0, o[0][0]))], assume=_un, rules=_ru, sample=_samp))

    def rp(i, o):
        L = tm.fn("log", i.b)
        r = SQRT(sumsq(i.q[1:]))
        z = exp(i.q[0] * L)
        return [("b**q", SAME(o, oarr([z * cos(r * L)] + [z * t / r * sin(r * L) for t in i.q[1:]])))]

    out.append(H("b**q", dict(q=Arr(4), b=Arr(lo=Fraction(11, 10), hi=100)), lambda i: comps(i.b ** Q(i.q)), rp, assume=lambda i: [tm.le(tm.const(Fraction(1, 10**6)), sumsq(i.q[1:]))]))
    out.append(H("b**real", dict(a=Arr(), b=pos()), lambda i: comps(i.b ** Quaternion(i.a, jnp.zeros(3))),
                 lambda i, o: [("b**a", SAME(o, oarr([exp(i.a * tm.fn("log", i.b)), tm.ZERO, tm.ZERO, tm.ZERO])))]))
    return out


# q = s (c + sqrt(1-c^2) u) with a unit vector u: every quaternion with a vector part
def _mk(i):
    return jnp.concatenate([(i.s * i.c)[None], i.s * jnp.sqrt(1 - i.c**2) * i.u])


def _explog(i):
    q = _mk(i)
    return comps(quanternion_exp(quanternion_log(Q(q)))), q


def _pow(i, k):
    q = _mk(i)
    return comps(Q(q) ** k), q


def _power(q, k):
    if k == 0:
        return oarr([tm.ONE, tm.ZERO, tm.ZERO, tm.ZERO])
    if k < 0:
        return oarr([t / sumsq(q) for t in cj(q)])
    r = q
    for _ in range(k - 1):
        r = ham(r, q)
    return r


def _un(i):
    out = list(EQ(sumsq(i.u), 1))
    if hasattr(i, "c"):
        out += [tm.le(tm.const(Fraction(1, 10**6)), i.s), tm.le(i.c, tm.const(1 - Fraction(1, 10**6))), tm.le(tm.const(-1 + Fraction(1, 10**6)), i.c)]
    return out


def _ru(i):
    return [(i.u[2], 2, 1 - i.u[0] ** 2 - i.u[1] ** 2)]


def _samp(rng):
    v = rng.normal(size=3)
    return dict(u=v / np.linalg.norm(v))
