"""derivative / value_and_derivative: exact partial derivatives in every calling convention."""
import itertools
from .common import *
import flax.linen as nn
from magpi.calc import derivative, value_and_derivative

INFO = dict(bounds="any smooth function of up to three scalar arguments or two vector arguments (2 components each), any point, derivatives up to third order, positional / named / vector-component / directional selection, keyword arguments, flax modules",
            outside="orders above three, larger arities")


def g3():
    f = ofun("f", 3)
    return lambda x, y, z: f(jnp.stack([x, y, z]))


def gv():
    f = ofun("f", 4)
    return lambda x, y: f(jnp.concatenate([x, y]))


def gk():
    f = ofun("f", 3)

    def g(x, y, c=0.0):
        return f(jnp.stack([x, y, jnp.asarray(c, float)]))

    return g


class Mod(nn.Module):
    @nn.compact
    def __call__(self, x, s=0.0):
        w = self.param("w", lambda k: jnp.zeros(2))
        return ofun("f", 4)(jnp.stack([x, w[0], w[1], jnp.asarray(s, float)]))


def harnesses():
    out = []
    S3 = dict(x=Arr(), y=Arr(), z=Arr())
    D = lambda *d: (lambda i: app("f", [i.x, i.y, i.z], d))

    def h(name, fn, want, ins=S3, label="partial derivative"):
        out.append(H(name, ins, fn, lambda i, o: [(label, SAME(o, want(i)))]))

    c3 = lambda op: (lambda i: op(g3())(i.x, i.y, i.z))
    h("derivative(f)", c3(lambda g: derivative(g)), D(0))
    for k in range(3):
        h(f"derivative(f, {k})", c3(lambda g, k=k: derivative(g, k)), D(k))
        h(f"derivative({k})(f)", c3(lambda g, k=k: derivative(k)(g)), D(k))
        h(f"derivative(['{'xyz'[k]}'])(f)", c3(lambda g, k=k: derivative(["xyz"[k]])(g)), D(k))
        h(f"derivative('{'xyz'[k]}')(f)", c3(lambda g, k=k: derivative("xyz"[k])(g)), D(k))
    for w in [list(t) for t in itertools.product((0, 1, 2), repeat=2)] + [list(t) for t in itertools.product("xyz", repeat=2)] + [["y", 0], [2, "x"], [0, 1, 2], [2, 1, 0], [1, 1, 0], ["z", "z", "x"], (1, 2)]:
        idx = tuple(sorted("xyz".index(t) if isinstance(t, str) else t for t in w))
        h(f"derivative({w})(f)", c3(lambda g, w=w: derivative(w)(g)), D(*idx), label="iterated partial derivative")
    h("derivative(derivative(f), 1)", c3(lambda g: derivative(derivative(g, 0), 1)), D(0, 1))
    h("derivative of a derivative by name", c3(lambda g: derivative(["y"])(derivative(["x"])(g))), D(0, 1))
    # functions with a long parameter name: the name is one argument, not its letters
    def longname(i):
        f = ofun("f", 2)

        def g(time, pos):
            return f(jnp.stack([time, pos]))

        return derivative("time")(g)(i.x, i.y), derivative("pos")(g)(i.x, i.y), derivative(["time", "pos"])(g)(i.x, i.y)

    out.append(H("names of several letters", S3, longname, lambda i, o: [
        (f"partial derivative {k}", EQ(o[k], app("f", [i.x, i.y], d))) for k, d in enumerate([(0,), (1,), (0, 1)])]))
    # directional
    h("derivative([[v]])(f)", c3(lambda g: derivative([[0.0, 2.0, -1.0]])(g)), lambda i: 2 * app("f", [i.x, i.y, i.z], (1,)) - app("f", [i.x, i.y, i.z], (2,)), label="directional derivative")
    # vector arguments
    V = dict(x=Arr(2), y=Arr(2))
    DV = lambda *d: (lambda i: app("f", list(i.x) + list(i.y), tuple(sorted(d))))
    cv = lambda op: (lambda i: op(gv())(i.x, i.y))
    for a in (0, 1):
        for k in (0, 1):
            h(f"component {k} of argument {a}", cv(lambda g, a=a, k=k: derivative([k], argnums=[a])(g)), DV(2 * a + k), V)
            h(f"component {k} of argument {a} (scalars)", cv(lambda g, a=a, k=k: derivative(k, argnums=a)(g)), DV(2 * a + k), V)

            def vd(i, a=a, k=k):
                return value_and_derivative(gv(), k, argnum=a)(i.x, i.y)

            out.append(H(f"value_and_derivative component {k} of argument {a}", V, vd, lambda i, o, a=a, k=k: [
                ("value", SAME(o[0], DV()(i))), ("partial derivative", SAME(o[1], DV(2 * a + k)(i)))]))
    for a, k, b, l in itertools.product((0, 1), repeat=4):
        h(f"components [{k},{l}] of arguments [{a},{b}]", cv(lambda g, a=a, k=k, b=b, l=l: derivative([k, l], argnums=[a, b])(g)), DV(2 * a + k, 2 * b + l), V)
    for a, b, c in itertools.product((0, 1), repeat=3):
        h(f"components [0,1,1] of arguments [{a},{b},{c}]", cv(lambda g, a=a, b=b, c=c: derivative([0, 1, 1], argnums=[a, b, c])(g)), DV(2 * a, 2 * b + 1, 2 * c + 1), V)
        h(f"components (1,0,1) of arguments ({a},{b},{c})", cv(lambda g, a=a, b=b, c=c: derivative((1, 0, 1), argnums=(a, b, c))(g)), DV(2 * a + 1, 2 * b, 2 * c + 1), V)
    h("components [1,1,0] of argument 1", cv(lambda g: derivative([1, 1, 0], argnums=1)(g)), DV(2, 3, 3), V)
    # values
    for w, k in ((0, 0), (2, 2), ("y", 1), ("z", 2)):
        out.append(H(f"value_and_derivative({w!r})", S3, lambda i, w=w: value_and_derivative(g3(), w)(i.x, i.y, i.z),
                     lambda i, o, k=k: [("value", SAME(o[0], D()(i))), ("partial derivative", SAME(o[1], D(k)(i)))]))
    # keyword arguments are passed through and kept fixed
    h("keyword argument", lambda i: derivative(gk(), 1)(i.x, i.y, c=i.z), D(1))
    h("keyword argument, iterated", lambda i: derivative(["x", "y"])(gk())(i.x, i.y, c=i.z), D(0, 1))
    # whatever value a keyword argument has, it replaces the default
    def plain(i):
        f = ofun("f", 3)

        def g(x, y, c=2.0, flag=True, none=3.0, text="a", tree=None):
            w = jnp.asarray(c, float) + (1.0 if flag else 0.0) + (10.0 if none is None else 0.0) + (20.0 if text == "" else 0.0) + (0.0 if tree is None else 40.0 + sum(tree.values()))
            return f(jnp.stack([x, y, w]))

        kws = KWS
        return [(derivative(g, 1)(i.x, i.y, **k), derivative(["x", "y"])(g)(i.x, i.y, **k), *value_and_derivative(g, "y")(i.x, i.y, **k)) for k, _ in kws]

    KWS = [({}, 3), (dict(c=0.0), 1), (dict(c=0), 1), (dict(flag=False), 2), (dict(c=0, flag=False), 0), (dict(none=None), 13), (dict(text=""), 23), (dict(tree={}), 43), (dict(c=-1, tree=dict(a=1.0)), 41), (dict(c=jnp.zeros(())), 1)]
    out.append(H("keyword arguments of any value", dict(x=Arr(), y=Arr()), plain, lambda i, o: [
        (f"keywords {list(k.items())} reach the function", AND(SAME(r[0], app("f", [i.x, i.y, tm.const(w)], (1,))), SAME(r[1], app("f", [i.x, i.y, tm.const(w)], (0, 1))),
                                                 SAME(r[2], app("f", [i.x, i.y, tm.const(w)])), SAME(r[3], app("f", [i.x, i.y, tm.const(w)], (1,))))) for (k, w), r in zip(KWS, o)]))
    # under transformations
    h("jit", lambda i: jax.jit(derivative([0, 2])(g3()))(i.x, i.y, i.z), D(0, 2))
    out.append(H("vmap", dict(x=Arr(2), y=Arr()), lambda i: jax.vmap(derivative(lambda x, y: ofun("f", 2)(jnp.stack([x, y])), 0), (0, None))(i.x, i.y),
                 lambda i, o: [("per sample derivative", SAME(o, oarr([app("f", [t, i.y], (0,)) for t in i.x])))]))
    # vector valued functions
    out.append(H("vector valued", dict(x=Arr(), y=Arr()), lambda i: derivative(lambda x, y: ovec("f", 2, 3)(jnp.stack([x, y])), 1)(i.x, i.y),
                 lambda i, o: [("componentwise", SAME(o, oarr([app(f"f{k}", [i.x, i.y], (1,)) for k in range(3)])))]))
    # flax modules: f(x, params)
    M = dict(x=Arr(), w=Arr(2), s=Arr())
    out.append(H("flax module", M, lambda i: (derivative(Mod())(i.x, {"params": {"w": i.w}}), derivative(Mod(), 0)(i.x, {"params": {"w": i.w}}, s=i.s),
                                              value_and_derivative(Mod(), 0)(i.x, {"params": {"w": i.w}}, i.s)[0]),
                 lambda i, o: [("derivative of the forward pass", EQ(o[0], app("f", [i.x, i.w[0], i.w[1], tm.ZERO], (0,)))),
                               ("keyword argument", EQ(o[1], app("f", [i.x, i.w[0], i.w[1], i.s], (0,)))),
                               ("value", EQ(o[2], app("f", [i.x, i.w[0], i.w[1], i.s])))]))
    return out
