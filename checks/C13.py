"""Product quadrature: integrate() over rectangular domains."""
from .common import *
from magpi.integrate import midpoint, trap, simpson, gauss, integrate

INFO = dict(bounds="any integrand (uninterpreted), any nodal points (2-17 in one dimension, 2-9 per dimension, different counts per dimension), 1-4 dimensions, all rules, extra positional and keyword arguments, vector and pytree valued integrands",
            outside="more nodes and dimensions (the same code, unrolled further)")
RULES = dict(midpoint=midpoint, trap=trap, simpson=simpson, gauss2=gauss(2))


def own(rule, d):
    """weights and nodes written down independently"""
    d = list(d)
    n = len(d)
    if rule == "midpoint":
        return [d[k + 1] - d[k] for k in range(n - 1)], [(d[k] + d[k + 1]) / 2 for k in range(n - 1)]
    if rule == "trap":
        w = [tm.ZERO] * n
        for k in range(n - 1):
            w[k] = w[k] + (d[k + 1] - d[k]) / 2
            w[k + 1] = w[k + 1] + (d[k + 1] - d[k]) / 2
        return w, d
    if rule == "simpson":
        w, x = [tm.ZERO] * (2 * n - 1), []
        for k in range(n - 1):
            h = d[k + 1] - d[k]
            for j, c in ((2 * k, 1), (2 * k + 1, 4), (2 * k + 2, 1)):
                w[j] = w[j] + h * Fraction(c, 6)
        for k in range(2 * n - 1):
            x.append(d[k // 2] if k % 2 == 0 else (d[k // 2] + d[k // 2 + 1]) / 2)
        return w, x
    raise KeyError(rule)


def grid(rules_nodes):
    import itertools
    for combo in itertools.product(*[list(zip(w, x)) for w, x in rules_nodes]):
        yield tm.mul(*[c[0] for c in combo]), [c[1] for c in combo]


def harnesses():
    out = []
    for rn, rule in RULES.items():
        for sizes in ((2,), (3,), (5,), (9,), (17,), (2, 3), (3, 2), (5, 7), (9, 2), (2, 2, 3), (2, 2, 2, 2)):
            if rn == "simpson" and sizes == (2, 2, 2, 2):
                continue
            if len(sizes) == 3 and rn == "simpson":
                sizes = (2, 2, 2)
            n = len(sizes)
            ins = {f"d{k}": Arr(s) for k, s in enumerate(sizes)}
            dom = lambda i, n=n: [getattr(i, f"d{k}") for k in range(n)]

            def fn(i, rule=rule, n=n, dom=dom):
                f = oscalar("f") if n == 1 else ofun("f", n)
                r = integrate(f, dom(i), method=rule)
                t = integrate(f, tuple(dom(i)), method=rule)
                return r, t, [rule(d) for d in dom(i)]

            def cl(i, o, n=n, rn=rn, dom=dom):
                wx = [own(rn, d) for d in dom(i)] if rn != "gauss2" else o[2]
                s = tm.add(tm.ZERO, *[w * app("f", x) for w, x in grid(wx)])
                return [("sum over the product grid", SAME(o[0], s)), ("tuple of domains", SAME(o[1], s))]

            out.append(H(f"{rn} {sizes}", ins, fn, cl))
    two = dict(a=Arr(2), b=Arr(3), p=Arr(), q=Arr())

    def args(i):
        f = lambda x, p, q=0.0: ofun("f", 4)(jnp.concatenate([x, p[None], jnp.asarray(q, float)[None]]))
        f1 = lambda x, p, q=0.0: ofun("f", 3)(jnp.stack([x, jnp.broadcast_to(p, x.shape), jnp.broadcast_to(jnp.asarray(q, float), x.shape)], -1))
        return integrate(f, [i.a, i.b], i.p, method=trap, q=i.q), integrate(f, [i.a, i.b], i.p, method=trap), integrate(lambda x, p, q=0.0: ofun("g", 3)(jnp.stack([x, jnp.broadcast_to(p, x.shape), jnp.broadcast_to(jnp.asarray(q, float), x.shape)], -1)), i.b, i.p, method=trap, q=i.q)

    def argc(i, o):
        S = lambda wx, F: tm.add(tm.ZERO, *[w * F(x) for w, x in grid(wx)])
        ab = [own("trap", i.a), own("trap", i.b)]
        return [("arguments reach the integrand", SAME(o[0], S(ab, lambda x: app("f", x + [i.p, i.q])))),
                ("default keyword", SAME(o[1], S(ab, lambda x: app("f", x + [i.p, tm.ZERO])))),
                ("one dimension", SAME(o[2], S(ab[1:], lambda x: app("g", x + [i.p, i.q]))))]

    out.append(H("arguments", two, args, argc))
    out.append(H("2d array as domain", dict(d=Arr(2, 3)), lambda i: integrate(ofun("f", 2), i.d, method=trap),
                 lambda i, o: [("rows are the dimensions", SAME(o, tm.add(*[w * app("f", x) for w, x in grid([own("trap", i.d[0]), own("trap", i.d[1])])])))]))
    out.append(H("default rule", dict(a=Arr(2), b=Arr(3)), lambda i: integrate(ofun("f", 2), [i.a, i.b]),
                 lambda i, o: [("Simpson", SAME(o, tm.add(*[w * app("f", x) for w, x in grid([own("simpson", i.a), own("simpson", i.b)])])))]))
    out.append(H("vector valued integrand", dict(a=Arr(2), b=Arr(3)), lambda i: integrate(ovec("f", 2, 3), [i.a, i.b], method=trap),
                 lambda i, o: [("componentwise", SAME(o, oarr([tm.add(*[w * app(f"f{k}", x) for w, x in grid([own("trap", i.a), own("trap", i.b)])]) for k in range(3)])))]))

    def tree(i):
        f = lambda x: dict(u=oscalar("f")(x), v=jnp.stack([oscalar("g")(x), oscalar("h")(x)], -1))
        return integrate(f, i.b, method=trap), integrate(f, [i.b], method=trap)

    def treec(i, o):
        w, x = own("trap", i.b)
        S = lambda nm: tm.add(*[a * app(nm, [t]) for a, t in zip(w, x)])
        return [(f"leafwise {k}", AND(SAME(z["u"], S("f")), SAME(z["v"], oarr([S("g"), S("h")])))) for k, z in enumerate(o)]

    out.append(H("pytree valued integrand, 1d", dict(b=Arr(3)), tree, treec))
    out.append(H("linear in the integrand", dict(a=Arr(2), b=Arr(2), s=Arr()),
                 lambda i: (integrate(lambda x: ofun("f", 2)(x) + i.s * ofun("g", 2)(x), [i.a, i.b]), integrate(ofun("f", 2), [i.a, i.b]), integrate(ofun("g", 2), [i.a, i.b])),
                 lambda i, o: [("linear", EQ(o[0], o[1] + i.s * o[2]))]))
    out.append(H("volume", dict(a=Arr(3), b=Arr(2), c=Arr(2)), lambda i: [integrate(lambda x: 1.0 + 0 * x[0], [i.a, i.b, i.c], method=r) for r in (midpoint, trap, simpson)],
                 lambda i, o: [(f"product of the lengths {k}", EQ(t, (i.a[-1] - i.a[0]) * (i.b[-1] - i.b[0]) * (i.c[-1] - i.c[0]))) for k, t in enumerate(o)]))
    return out
