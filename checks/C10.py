"""divergence, curl, laplace, Hessian diagonal, values with Jacobians."""
from .common import *
import flax.linen as nn
from magpi.calc import divergence, value_and_divergence, curl, laplace, hessian_diag, value_and_jacfwd, value_and_jacrev

INFO = dict(bounds="any smooth (vector / batch / pytree valued) function of 1-4 variables plus an extra argument, any point; flax modules; has_aux; argnums",
            outside="larger dimensions and deeper pytrees")


def D(name, x, *d):
    return app(name, list(x), tuple(sorted(d)))


class Mod(nn.Module):
    m: int

    @nn.compact
    def __call__(self, x):
        w = self.param("w", lambda k: jnp.zeros(1))
        z = jnp.concatenate([x, w])
        return ovec("f", x.shape[0] + 1, self.m)(z) if self.m else ofun("f", x.shape[0] + 1)(z)


def harnesses():
    out = []

    def F(n, m, nm="f"):
        return ovec(nm, n, m)

    for n in (1, 2, 3, 4):
        out.append(H(f"divergence {n}D", dict(x=Arr(n)), lambda i, n=n: (divergence(F(n, n))(i.x), value_and_divergence(F(n, n))(i.x)),
                     lambda i, o, n=n: [("trace of the Jacobian", EQ(o[0], tm.add(*[D(f"f{k}", i.x, k) for k in range(n)]))),
                                        ("same with value", EQ(o[1][1], tm.add(*[D(f"f{k}", i.x, k) for k in range(n)]))),
                                        ("value", SAME(o[1][0], oarr([D(f"f{k}", i.x) for k in range(n)])))]))

        out.append(H(f"laplace {n}D", dict(x=Arr(n), t=Arr()),
                     lambda i, n=n: (laplace(ofun("f", n))(i.x), laplace(lambda x, t, s: ofun("g", n + 2)(jnp.concatenate([x, t[None], s[None]])))(i.x, i.t, s=2 * i.t),
                                     hessian_diag(ofun("f", n), i.x)),
                     lambda i, o, n=n: [("sum of second derivatives", EQ(o[0], tm.add(*[D("f", i.x, k, k) for k in range(n)]))),
                                        ("extra arguments", EQ(o[1], tm.add(*[D("g", list(i.x) + [i.t, 2 * i.t], k, k) for k in range(n)]))),
                                        ("diagonal", SAME(o[2], oarr([D("f", i.x, k, k) for k in range(n)])))]))
    # matrix valued: divergence of every row
    out.append(H("divergence of each row", dict(x=Arr(2)), lambda i: (divergence(lambda x: jnp.stack([F(2, 2, "f")(x), F(2, 2, "g")(x), F(2, 2, "h")(x)]))(i.x)),
                 lambda i, o: [("rowwise", SAME(o, oarr([D(f"{c}0", i.x, 0) + D(f"{c}1", i.x, 1) for c in "fgh"])))]))
    out.append(H("divergence of a pytree", dict(x=Arr(2)), lambda i: divergence(lambda x: dict(a=F(2, 2, "f")(x), b=F(2, 2, "g")(x)))(i.x),
                 lambda i, o: [("a", EQ(o["a"], D("f0", i.x, 0) + D("f1", i.x, 1))), ("b", EQ(o["b"], D("g0", i.x, 0) + D("g1", i.x, 1)))]))
    out.append(H("divergence wrt the second argument", dict(t=Arr(), x=Arr(2)),
                 lambda i: divergence(lambda t, x, s: F(4, 2)(jnp.concatenate([x, t[None], s[None]])), argnums=1)(i.t, i.x, s=3 * i.t),
                 lambda i, o: [("trace", EQ(o, D("f0", list(i.x) + [i.t, 3 * i.t], 0) + D("f1", list(i.x) + [i.t, 3 * i.t], 1)))]))
    # the selected argument at every position among others
    for pos in (0, 1, 2, -1):
        for kw in (False, True):
            def sel(i, pos=pos, kw=kw):
                def f(*a, s=None):
                    a = list(a)
                    x = a.pop(pos)
                    return F(5, 2)(jnp.concatenate([x, a[0], a[1][None], (2 * a[1] if s is None else s)[None]]))
                args = [i.u, i.t]
                args.insert(pos if pos >= 0 else 2, i.x)
                k = dict(s=3 * i.t) if kw else {}
                return divergence(f, pos)(*args, **k), divergence(f, argnums=pos)(*args, **k), value_and_divergence(f, pos)(*args, **k)

            def cls(i, o, kw=kw):
                z = list(i.x) + [i.u[0], i.t, (3 if kw else 2) * i.t]
                dv = D("f0", z, 0) + D("f1", z, 1)
                return [("positional", EQ(o[0], dv)), ("by name", EQ(o[1], dv)), ("value", SAME(o[2][0], oarr([D("f0", z), D("f1", z)]))), ("with value", EQ(o[2][1], dv))]
            out.append(H(f"divergence wrt argument {pos} of three, keywords={kw}", dict(t=Arr(), x=Arr(2), u=Arr(1)), sel, cls))
    for n, m in ((2, 1), (2, 2), (3, 2), (3, 3)):
        out.append(H(f"divergence of {m} rows in {n}D", dict(x=Arr(n)), lambda i, n=n, m=m: divergence(lambda x: jnp.stack([F(n, n, c)(x) for c in "fgh"[:m]]))(i.x),
                     lambda i, o, n=n, m=m: [("rowwise", SAME(o, oarr([tm.add(*[D(f"{c}{k}", i.x, k) for k in range(n)]) for c in "fgh"[:m]])))]))
    # curl
    cz = lambda nm, z, a, b: D(f"{nm}{b}", z, a) - D(f"{nm}{a}", z, b)
    c3 = lambda nm, z: [cz(nm, z, 1, 2), cz(nm, z, 2, 0), cz(nm, z, 0, 1)]
    out.append(H("curl 2D", dict(x=Arr(2), t=Arr()), lambda i: (curl(F(2, 2))(i.x), curl(lambda x, t: F(3, 2, "g")(jnp.append(x, t)))(i.x, i.t)),
                 lambda i, o: [("d1/dx0 - d0/dx1", EQ(o[0], cz("f", i.x, 0, 1))), ("extra argument", EQ(o[1], cz("g", list(i.x) + [i.t], 0, 1)))]))
    out.append(H("curl 3D", dict(x=Arr(3), t=Arr()), lambda i: (curl(F(3, 3))(i.x), curl(lambda x, t: F(4, 3, "g")(jnp.append(x, t)))(i.x, i.t)),
                 lambda i, o: [("curl", SAME(o[0], oarr(c3("f", i.x)))), ("extra argument", SAME(o[1], oarr(c3("g", list(i.x) + [i.t]))))]))
    out.append(H("curl of each row", dict(x=Arr(3), y=Arr(2)),
                 lambda i: (curl(lambda x: jnp.stack([F(3, 3, "f")(x), F(3, 3, "g")(x)]))(i.x), curl(lambda x: jnp.stack([F(2, 2, "h")(x), F(2, 2, "k")(x), F(2, 2, "l")(x)]))(i.y)),
                 lambda i, o: [("3D rows", SAME(o[0], oarr([c3("f", i.x), c3("g", i.x)]))), ("2D rows", SAME(o[1], oarr([cz(c, i.y, 0, 1) for c in "hkl"])))]))
    out.append(H("curl of a pytree", dict(x=Arr(3), y=Arr(2)),
                 lambda i: (curl(lambda x: dict(a=F(3, 3, "f")(x), b=F(3, 3, "g")(x)))(i.x), curl(lambda x: (F(2, 2, "h")(x), F(2, 2, "k")(x)))(i.y)),
                 lambda i, o: [("3D", AND(SAME(o[0]["a"], oarr(c3("f", i.x))), SAME(o[0]["b"], oarr(c3("g", i.x))))),
                               ("2D", AND(EQ(o[1][0], cz("h", i.y, 0, 1)), EQ(o[1][1], cz("k", i.y, 0, 1))))]))
    for n in (1, 4):
        out.append(H(f"curl rejects {n}D", dict(x=Arr(n)), lambda i, n=n: _raises(lambda: curl(F(n, n))(i.x), ValueError),
                     lambda i, o: [("raises ValueError", o)]))
    # identities of vector calculus
    out.append(H("div curl = 0", dict(x=Arr(3)), lambda i: divergence(curl(F(3, 3)))(i.x), lambda i, o: [("zero", EQ(o, 0))]))
    for n in (2, 3):
        out.append(H(f"curl grad = 0, {n}D", dict(x=Arr(n)), lambda i, n=n: curl(jax.jacfwd(ofun("f", n)))(i.x), lambda i, o: [("zero", EQ(o, 0))]))
        out.append(H(f"div grad = laplace, {n}D", dict(x=Arr(n)), lambda i, n=n: (divergence(jax.jacfwd(ofun("f", n)))(i.x), laplace(ofun("f", n))(i.x)),
                     lambda i, o: [("equal", EQ(o[0], o[1]))]))
    # laplace of vectors, matrices, pytrees, scalars
    L = lambda nm, x: tm.add(*[D(nm, x, k, k) for k in range(len(x))])
    out.append(H("laplace of a vector field", dict(x=Arr(2)), lambda i: laplace(F(2, 3))(i.x), lambda i, o: [("componentwise", SAME(o, oarr([L(f"f{k}", i.x) for k in range(3)])))]))
    out.append(H("laplace of a matrix field", dict(x=Arr(3)), lambda i: laplace(lambda x: jnp.stack([F(3, 2, "f")(x), F(3, 2, "g")(x)]))(i.x),
                 lambda i, o: [("componentwise", SAME(o, oarr([[L(f"{c}{k}", i.x) for k in range(2)] for c in "fg"])))]))
    out.append(H("laplace of a pytree", dict(x=Arr(2)), lambda i: laplace(lambda x: dict(a=F(2, 3)(x), b=ofun("g", 2)(x)))(i.x),
                 lambda i, o: [("a", SAME(o["a"], oarr([L(f"f{k}", i.x) for k in range(3)]))), ("b", SAME(o["b"], L("g", i.x)))]))
    out.append(H("laplace of a function of a scalar", dict(x=Arr()), lambda i: (laplace(lambda x: ofun("f", 1)(x[None]))(i.x), laplace(lambda x: F(1, 2, "g")(x[None]))(i.x), hessian_diag(lambda x: ofun("f", 1)(x[None]), i.x)),
                 lambda i, o: [("scalar", SAME(o[0], D("f", [i.x], 0, 0))), ("vector", SAME(o[1], oarr([D(f"g{k}", [i.x], 0, 0) for k in range(2)]))),
                               ("diagonal", SAME(o[2], oarr([D("f", [i.x], 0, 0)])))]))
    # flax modules: op(module)(x, params)
    P_ = lambda i: {"params": {"w": i.w}}
    zz = lambda i: list(i.x) + list(i.w)
    for n in (2, 3):
        out.append(H(f"flax module {n}D", dict(x=Arr(n), w=Arr(1)),
                     lambda i, n=n: (divergence(Mod(n))(i.x, P_(i)), curl(Mod(n))(i.x, P_(i)), laplace(Mod(n))(i.x, P_(i)), value_and_divergence(Mod(n))(i.x, P_(i))[0]),
                     lambda i, o, n=n: [("divergence", EQ(o[0], tm.add(*[D(f"f{k}", zz(i), k) for k in range(n)]))),
                                        ("curl", SAME(o[1], cz("f", zz(i), 0, 1) if n == 2 else oarr(c3("f", zz(i))))),
                                        ("laplace", SAME(o[2], oarr([tm.add(*[D(f"f{k}", zz(i), j, j) for j in range(n)]) for k in range(n)]))),
                                        ("value", SAME(o[3], oarr([D(f"f{k}", zz(i)) for k in range(n)])))]))
    # value_and_jac
    for nm, op in (("value_and_jacfwd", value_and_jacfwd), ("value_and_jacrev", value_and_jacrev)):
        out.append(H(f"{nm}", dict(x=Arr(3)), lambda i, op=op: (op(F(3, 2))(i.x), op(ofun("g", 3))(i.x)),
                     lambda i, o: [("value", SAME(o[0][0], oarr([D(f"f{k}", i.x) for k in range(2)]))),
                                   ("Jacobian", SAME(o[0][1], oarr([[D(f"f{k}", i.x, j) for j in range(3)] for k in range(2)]))),
                                   ("scalar value", SAME(o[1][0], D("g", i.x))), ("gradient", SAME(o[1][1], oarr([D("g", i.x, j) for j in range(3)])))]))

        def aux(i, op=op):
            f = lambda x, y, c=0.0: (F(5, 2)(jnp.concatenate([x, y, jnp.asarray(c, float)[None]])), dict(q=ofun("h", 2)(x)))
            return op(f, has_aux=True)(i.x, i.y, c=i.c), op(f, argnums=1, has_aux=True)(i.x, i.y), op(lambda x, y: f(x, y)[0], argnums=(0, 1))(i.x, i.y)

        def auxc(i, o):
            z, z0 = list(i.x) + list(i.y) + [i.c], list(i.x) + list(i.y) + [tm.ZERO]
            v = lambda z: oarr([D(f"f{k}", z) for k in range(2)])
            J = lambda z, js: oarr([[D(f"f{k}", z, j) for j in js] for k in range(2)])
            (a, ja), (b, jb), (c, jc) = o
            return [("value and aux", AND(SAME(a[0], v(z)), SAME(a[1]["q"], D("h", i.x)))), ("Jacobian", SAME(ja, J(z, (0, 1)))),
                    ("argnums value", AND(SAME(b[0], v(z0)), SAME(b[1]["q"], D("h", i.x)))), ("argnums Jacobian", SAME(jb, J(z0, (2, 3)))),
                    ("several argnums", AND(SAME(c, v(z0)), SAME(jc[0], J(z0, (0, 1))), SAME(jc[1], J(z0, (2, 3)))))]

        out.append(H(f"{nm} with aux and argnums", dict(x=Arr(2), y=Arr(2), c=Arr()), aux, auxc))

        def tree(i, op=op):
            return op(lambda x: dict(a=F(2, 2)(x), b=ofun("g", 2)(x)))(i.x)

        out.append(H(f"{nm} of a pytree", dict(x=Arr(2)), tree, lambda i, o: [
            ("values", AND(SAME(o[0]["a"], oarr([D(f"f{k}", i.x) for k in range(2)])), SAME(o[0]["b"], D("g", i.x)))),
            ("Jacobians", AND(SAME(o[1]["a"], oarr([[D(f"f{k}", i.x, j) for j in range(2)] for k in range(2)])), SAME(o[1]["b"], oarr([D("g", i.x, j) for j in range(2)]))))]))
    return out


def _raises(fn, typ):
    try:
        fn()
    except typ:
        return jnp.asarray(True)
    return jnp.asarray(False)
