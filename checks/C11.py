"""Hessian-vector products in all modes."""
from .common import *
from magpi.calc import hvp, hvp_forward_over_reverse, hvp_reverse_over_reverse, value_grad_hvp

INFO = dict(bounds="any smooth function of 2-3 variables (vectors and pytrees), any point and direction, extra arguments, aux outputs, functions that return their own gradient, damping",
            outside="more variables")


def D(x, *d, name="f"):
    return app(name, list(x), tuple(sorted(d)))


def hv(x, v, name="f", extra=()):
    z = list(x) + list(extra)
    n = len(x)
    return oarr([tm.add(*[D(z, a, b, name=name) * v[b] for b in range(n)]) for a in range(n)])


def gr(x, n, name="f"):
    return oarr([D(x, a, name=name) for a in range(n)])


def harnesses():
    out = []
    for n in (1, 2, 3):
        ins = dict(x=Arr(n), v=Arr(n))
        f = lambda n=n: ofun("f", n)
        for nm, op in (("hvp", hvp), ("forward over reverse", hvp_forward_over_reverse), ("reverse over reverse", hvp_reverse_over_reverse)):
            out.append(H(f"{nm} {n}D", ins, lambda i, op=op, f=f: op(f(), [i.x], [i.v]), lambda i, o: [("H v", SAME(o, hv(i.x, i.v)))]))

        def vgh(i, f=f):
            y, g, h = value_grad_hvp(f(), i.x)
            return y, g, h(i.v)

        out.append(H(f"value_grad_hvp {n}D", ins, vgh, lambda i, o, n=n: [("value", SAME(o[0], D(i.x))), ("gradient", SAME(o[1], gr(i.x, n))), ("H v", SAME(o[2], hv(i.x, i.v)))]))
    ins = dict(x=Arr(2), v=Arr(2), a=Arr(), c=Arr())
    fe = lambda x, a, c=0.0: ofun("f", 4)(jnp.concatenate([x, a[None], jnp.asarray(c, float)[None]]))
    ex = lambda i: [i.a, i.c]
    fa = lambda x, a, c=0.0: (fe(x, a, c), dict(q=ofun("h", 2)(x)))
    vg = lambda x, a, c=0.0: jax.value_and_grad(fe)(x, a, c)
    vga = lambda x, a, c=0.0: jax.value_and_grad(fa, has_aux=True)(x, a, c)
    for nm, op in (("forward over reverse", hvp_forward_over_reverse), ("reverse over reverse", hvp_reverse_over_reverse)):
        for kind, f, kw in (("extra arguments", fe, {}), ("aux", fa, dict(has_aux=True)), ("own gradient", vg, dict(value_and_grad=True)),
                            ("own gradient and aux", vga, dict(value_and_grad=True, has_aux=True))):
            out.append(H(f"{nm}: {kind}", ins, lambda i, op=op, f=f, kw=kw: op(f, [i.x], [i.v], i.a, c=i.c, **kw),
                         lambda i, o: [("H v", SAME(o, hv(i.x, i.v, extra=ex(i))))]))
    for kind, f, kw in (("extra arguments", fe, {}), ("aux", fa, dict(has_aux=True)), ("own gradient", vg, dict(value_and_grad=True)),
                        ("own gradient and aux", vga, dict(value_and_grad=True, has_aux=True))):
        def run(i, f=f, kw=kw):
            y, g, h, *aux = value_grad_hvp(f, i.x, i.a, c=i.c, **kw)
            return y, g, h(i.v), aux

        def cl(i, o, kw=kw):
            z = list(i.x) + ex(i)
            c = [("value", SAME(o[0], D(z))), ("gradient", SAME(o[1], gr(z, 2))), ("H v", SAME(o[2], hv(i.x, i.v, extra=ex(i))))]
            c.append(("aux", SAME(o[3][0]["q"], app("h", list(i.x))) if kw.get("has_aux") else [tm.boolc(len(o[3]) == 0)]))
            return c

        out.append(H(f"value_grad_hvp: {kind}", ins, run, cl))
    # damping
    out.append(H("damped", dict(x=Arr(2), v=Arr(2), al=Arr()), lambda i: hvp_forward_over_reverse(ofun("f", 2), [i.x], [i.v], alpha=i.al),
                 lambda i, o: [("H v + alpha v", SAME(o, hv(i.x, i.v) + oarr([i.al * t for t in i.v])))]))

    # pytrees
    def ft(p):
        return ofun("f", 3)(jnp.concatenate([p["w"], p["b"][None]]))

    def tree(i):
        p, t = dict(w=i.w, b=i.b), dict(w=i.v, b=i.c)
        y, g, h = value_grad_hvp(ft, p)
        return (hvp_forward_over_reverse(ft, [p], [t]), hvp_reverse_over_reverse(ft, [p], [t]), h(t), g, y,
                hvp_forward_over_reverse(ft, [p], [t], alpha=2.0))

    def treec(i, o):
        x, v = list(i.w) + [i.b], list(i.v) + [i.c]
        w = hv(x, v)
        eqt = lambda t, w: AND(SAME(t["w"], w[:2]), SAME(t["b"], w[2]))
        return [("forward over reverse", eqt(o[0], w)), ("reverse over reverse", eqt(o[1], w)), ("linearised", eqt(o[2], w)),
                ("gradient", eqt(o[3], gr(x, 3))), ("value", SAME(o[4], D(x))), ("damped", eqt(o[5], w + 2 * oarr(v)))]

    out.append(H("pytrees", dict(w=Arr(2), b=Arr(), v=Arr(2), c=Arr()), tree, treec))
    # symmetric and linear in the direction
    out.append(H("symmetric", dict(x=Arr(3), u=Arr(3), v=Arr(3)), lambda i: [(jnp.dot(i.u, op(ofun("f", 3), [i.x], [i.v])), jnp.dot(i.v, op(ofun("f", 3), [i.x], [i.u]))) for op in (hvp, hvp_forward_over_reverse, hvp_reverse_over_reverse)],
                 lambda i, o: [(f"u H v = v H u ({k})", EQ(a, b)) for k, (a, b) in enumerate(o)]))
    # vector valued functions
    out.append(H("hvp of a vector field", dict(x=Arr(2), v=Arr(2)), lambda i: hvp(ovec("f", 2, 2), [i.x], [i.v]),
                 lambda i, o: [("componentwise", SAME(o, np.stack([hv(i.x, i.v, name=f"f{k}") for k in range(2)])))]))
    return out
