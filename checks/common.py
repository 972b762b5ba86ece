"""shared pieces of the property statements"""
from fractions import Fraction
from engine.harness import *
from engine.opaque import ofun, ovec, oscalar, omulti, Opaque
import jax
import jax.numpy as jnp

P, N = (lambda t: tm.lt(tm.ZERO, t)), (lambda t: tm.lt(t, tm.ZERO))


def Z(t):
    return tm.eq(t, tm.ZERO)


def sgn_claims(tag, out, inside, outside):
    """out is positive iff inside, negative iff outside, zero otherwise"""
    return [(tag + " positive exactly inside", IFF(P(out), inside)),
            (tag + " negative exactly outside", IFF(N(out), outside))]


def stub_system():
    """An arbitrary R-function system: only the sign contract of its two
    operations is known."""
    from magpi.r_fun import RFun

    conj, disj = Opaque("conj", 2), Opaque("disj", 2)

    class Stub(RFun):
        def conjunction(self, a, b):
            return conj(jnp.stack([jnp.asarray(a), jnp.asarray(b)], -1))

        def disjunction(self, a, b):
            return disj(jnp.stack([jnp.asarray(a), jnp.asarray(b)], -1))

    return Stub()


def _ax_conj(d, args, t):
    a, b = args
    return [IFF(P(t), AND(P(a), P(b))), IFF(N(t), OR(N(a), N(b)))] if not d else []


def _ax_disj(d, args, t):
    a, b = args
    return [IFF(P(t), OR(P(a), P(b))), IFF(N(t), AND(N(a), N(b)))] if not d else []


STUB_AXIOMS = dict(conj=_ax_conj, disj=_ax_disj)


class _Min:
    def __call__(self, x):
        return jnp.minimum(x[..., 0], x[..., 1])


class _Max:
    def __call__(self, x):
        return jnp.maximum(x[..., 0], x[..., 1])


STUB_CONCRETE = dict(conj=_Min(), disj=_Max())


def raised(f, typ=Exception):
    """does the call fail with the given exception?"""
    try:
        f()
    except typ:
        return jnp.asarray(True)
    return jnp.asarray(False)
