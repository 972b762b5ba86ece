"""Quaternion arithmetic."""
from .common import *
from magpi.quaternions import Quaternion, quaternion_left_div, quaternion_right_div

INFO = dict(bounds="any real components", outside="rounding; quaternions of norm zero for divisions")


def Q(v):
    return Quaternion(v[0], v[1:])


def comps(q):
    return jnp.concatenate([q.real[None], q.imag])


def ham(p, q):
    a, b, c, d = p
    e, f, g, h = q
    return oarr([a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g, a * g - b * h + c * e + d * f, a * h + b * g - c * f + d * e])


def cj(p):
    return oarr([p[0], -p[1], -p[2], -p[3]])


def harnesses():
    out = []
    two = dict(p=Arr(4), q=Arr(4))
    ps = dict(p=Arr(4), s=Arr())

    def h(name, ins, fn, want, label="value", **kw):
        out.append(H(name, ins, lambda i: comps(fn(i)), lambda i, o: [(label, SAME(o, want(i)))], **kw))

    nzq = lambda i: [P(sumsq(i.q))]
    h("sum", two, lambda i: Q(i.p) + Q(i.q), lambda i: i.p + i.q)
    h("difference", two, lambda i: Q(i.p) - Q(i.q), lambda i: i.p - i.q)
    h("negation", two, lambda i: -Q(i.p), lambda i: -i.p)
    h("conjugate", two, lambda i: Q(i.p).conj(), lambda i: cj(i.p))
    h("Hamilton product", two, lambda i: Q(i.p) * Q(i.q), lambda i: ham(i.p, i.q))
    h("q + s", ps, lambda i: Q(i.p) + i.s, lambda i: i.p + i.s)
    h("s + q", ps, lambda i: i.s + Q(i.p), lambda i: i.p + i.s)
    h("q - s", ps, lambda i: Q(i.p) - i.s, lambda i: i.p - i.s)
    h("s - q", ps, lambda i: i.s - Q(i.p), lambda i: i.s - i.p)
    h("2 - q", ps, lambda i: 2.0 - Q(i.p), lambda i: 2 - i.p)
    h("2 + q", ps, lambda i: 2.0 + Q(i.p), lambda i: 2 + i.p)
    h("q * s", ps, lambda i: Q(i.p) * i.s, lambda i: i.p * i.s)
    h("s * q", ps, lambda i: i.s * Q(i.p), lambda i: i.p * i.s)
    h("q / s", ps, lambda i: Q(i.p) / i.s, lambda i: oarr([t / i.s for t in i.p]), assume=lambda i: [tm.ne(i.s, tm.ZERO)])
    one = lambda i: oarr([tm.ONE, tm.ZERO, tm.ZERO, tm.ZERO])
    h("q * q^-1", two, lambda i: Q(i.q) * Q(i.q).reciprocal(), one, "identity", assume=nzq)
    h("q^-1 * q", two, lambda i: Q(i.q).reciprocal() * Q(i.q), one, "identity", assume=nzq)
    h("reciprocal", two, lambda i: Q(i.q).reciprocal(), lambda i: oarr([t / sumsq(i.q) for t in cj(i.q)]), assume=nzq)
    inv = lambda q: oarr([t / sumsq(q) for t in cj(q)])
    h("p / q", two, lambda i: Q(i.p) / Q(i.q), lambda i: ham(i.p, inv(i.q)), "p q^-1", assume=nzq)
    h("right division", two, lambda i: quaternion_right_div(Q(i.p), Q(i.q)), lambda i: ham(i.p, inv(i.q)), "p q^-1", assume=nzq)
    h("left division", two, lambda i: quaternion_left_div(Q(i.p), Q(i.q)), lambda i: ham(inv(i.q), i.p), "q^-1 p", assume=nzq)
    h("(p / q) * q", two, lambda i: Q(i.p) / Q(i.q) * Q(i.q), lambda i: i.p, "p", assume=nzq)
    h("q * (q \\ p)", two, lambda i: Q(i.q) * quaternion_left_div(Q(i.p), Q(i.q)), lambda i: i.p, "p", assume=nzq)
    h("zero", two, lambda i: Quaternion.zero_quaternion() + Q(i.p), lambda i: i.p, "neutral")
    out.append(H("abs", two, lambda i: (abs(Q(i.p)), abs(Q(i.p) * Q(i.q)), abs(Q(i.q)), abs(Q(i.p) + Q(i.q))),
                 lambda i, o: [("norm", AND(EQ(o[0] * o[0], sumsq(i.p)), LE(0, o[0]))),
                               ("multiplicative", EQ(o[1] * o[1], sumsq(i.p) * sumsq(i.q))),
                               ("definite", IFF(Z(o[0]), AND(EQ(i.p, 0))))]))
    out.append(H("triangle inequality", two, lambda i: (abs(Q(i.p)), abs(Q(i.q)), abs(Q(i.p) + Q(i.q))),
                 lambda i, o: [("|p+q| <= |p|+|q|", LE(o[2] * o[2], (o[0] + o[1]) * (o[0] + o[1])))], t_full=60, tier="thorough"))
    h("p (q r) = (p q) r", dict(p=Arr(4), q=Arr(4), r=Arr(4)), lambda i: Q(i.p) * (Q(i.q) * Q(i.r)) - (Q(i.p) * Q(i.q)) * Q(i.r),
      lambda i: oarr([tm.ZERO] * 4), "associative")
    h("p (q + r)", dict(p=Arr(4), q=Arr(4), r=Arr(4)), lambda i: Q(i.p) * (Q(i.q) + Q(i.r)) - Q(i.p) * Q(i.q) - Q(i.p) * Q(i.r),
      lambda i: oarr([tm.ZERO] * 4), "distributive")
    h("conj(p q)", two, lambda i: (Q(i.p) * Q(i.q)).conj() - Q(i.q).conj() * Q(i.p).conj(), lambda i: oarr([tm.ZERO] * 4), "anti-homomorphism")
    out.append(H("equality", two, lambda i: jnp.asarray(Q(i.p) == Q(i.q)),
                 lambda i, o: [("exactly when all four components agree", IFF(o, AND(EQ(i.p, i.q))))]))
    out.append(H("inequality", two, lambda i: jnp.asarray(Q(i.p) != Q(i.q)),
                 lambda i, o: [("exactly when some component differs", IFF(o, tm.not_(AND(EQ(i.p, i.q)))))]))

    def tree(i):
        l, d = jax.tree_util.tree_flatten(Q(i.p))
        q = jax.tree_util.tree_unflatten(d, l)
        m = jax.tree_util.tree_map(lambda t: 2 * t, Q(i.p))
        j = jax.jit(lambda a, b: a * b)(Q(i.p), Q(i.q))
        v = jax.vmap(lambda a: comps(Q(a)))(jnp.stack([i.p, i.q]))
        return comps(q), comps(m), comps(j), v, q.real, q.imag

    out.append(H("pytree", two, tree, lambda i, o: [("flatten/unflatten", SAME(o[0], i.p)), ("tree_map", SAME(o[1], 2 * i.p)),
                                                    ("jit", SAME(o[2], ham(i.p, i.q))), ("vmap", SAME(o[3], np.stack([i.p, i.q]))),
                                                    ("real", EQ(o[4], i.p[0])), ("imag", SAME(o[5], i.p[1:]))]))
    return out
