"""One dimensional quadrature rules: exactness, positivity, location of the nodes."""
from .common import *
from magpi.integrate import midpoint, trap, simpson, gauss, integrate

INFO = dict(bounds="any 2-5 nodal points (any real partition), midpoint/trap/simpson exact over the reals, gauss(1)..gauss(6) (thorough: ..10); polynomials up to the rule's degree of exactness",
            outside="more nodal points; the tabulated Gauss nodes are floating point numbers, so their moments are checked to 1e-12")


def integral(k, a, b):
    return (b ** (k + 1) - a ** (k + 1)) / (k + 1)


def harnesses():
    out = []
    rules = [("midpoint", midpoint, 1, lambda n: n - 1), ("trap", trap, 1, lambda n: n), ("simpson", simpson, 3, lambda n: 2 * n - 1)]
    for nm, rule, deg, cnt in rules:
        for n in (2, 3, 4, 5):
            def cl(i, o, deg=deg, n=n, cnt=cnt):
                w, x = o
                c = [("one weight per node", [tm.boolc(w.shape == (cnt(n),) and x.shape == (cnt(n),))])]
                for k in range(deg + 1):
                    c.append((f"exact for x^{k}", EQ(dot(w, [t ** k if k else tm.ONE for t in x]), integral(k, i.d[0], i.d[-1]))))
                return c

            out.append(H(f"{nm}, {n} points, exactness", dict(d=Arr(n)), lambda i, rule=rule: rule(i.d), cl))

            def cl2(i, o):
                w, x = o
                return [("nonnegative weights", LE(0, w)), ("nodes inside", AND(LE(i.d[0], x), LE(x, i.d[-1]))), ("nodes increase", LE(x[:-1], x[1:]))]

            out.append(H(f"{nm}, {n} points, increasing partition", dict(d=Arr(n)), lambda i, rule=rule: rule(i.d), cl2,
                         assume=lambda i, n=n: [tm.lt(i.d[k], i.d[k + 1]) for k in range(n - 1)], sample=_inc(n)))

            def cl3(i, o, deg=deg):
                return [(f"integral of every polynomial of degree {deg}", EQ(o, tm.add(*[i.c[k] * integral(k, i.d[0], i.d[-1]) for k in range(deg + 1)])))]

            out.append(H(f"integrate by {nm}, {n} points", dict(d=Arr(n), c=Arr(deg + 1)),
                         lambda i, rule=rule, deg=deg: integrate(lambda x: sum(i.c[k] * x**k for k in range(deg + 1)), i.d, method=rule), cl3,
                         tier="quick" if n < 5 else "thorough"))
    out.append(H("integrate by default", dict(d=Arr(3), c=Arr(4)), lambda i: integrate(lambda x: sum(i.c[k] * x**k for k in range(4)), i.d),
                 lambda i, o: [("Simpson accuracy", EQ(o, tm.add(*[i.c[k] * integral(k, i.d[0], i.d[-1]) for k in range(4)])))]))
    # local error: the rules are what they are called, on one cell, for any integrand
    f = lambda i, *t: oarr([app("f", [x]) for x in t])

    def one(i, o):
        a, b = i.d
        m = (a + b) / 2
        fa, fm, fb = f(i, a, m, b)
        return [("midpoint", EQ(o[0], (b - a) * fm)), ("trapezoid", EQ(o[1], (b - a) * (fa + fb) / 2)), ("Simpson", EQ(o[2], (b - a) * (fa + 4 * fm + fb) / 6))]

    out.append(H("one cell, any integrand", dict(d=Arr(2)), lambda i: [integrate(oscalar("f"), i.d, method=r) for r in (midpoint, trap, simpson)], one))
    # additivity of the composite rules
    for nm, rule, _, _ in rules + [("gauss(2)", gauss(2), 3, None), ("gauss(3)", gauss(3), 3, None)]:
        out.append(H(f"{nm}: composite rule adds the cells", dict(d=Arr(4)),
                     lambda i, rule=rule: (integrate(oscalar("f"), i.d, method=rule), [integrate(oscalar("f"), i.d[k:k + 2], method=rule) for k in range(3)]),
                     lambda i, o: [("sum over cells", EQ(o[0], tm.add(*o[1])))]))
    # Gauss
    for m in range(1, 11):
        def gcl(i, o, m=m):
            w, x = o
            c = [("number of nodes", [tm.boolc(w.shape == (m,) and x.shape == (m,))])]
            for k in range(2 * m):
                c.append((f"moment {k}", NEAR(dot(w, [t ** k if k else tm.ONE for t in x]), Fraction(2, k + 1) if k % 2 == 0 else 0, Fraction(1, 10**12))))
            c.append(("positive weights", LT(0, w)))
            c.append(("nodes inside", AND(LT(-1, x), LT(x, 1))))
            return c

        out.append(H(f"gauss({m}) on [-1,1]", dict(z=Arr()), lambda i, m=m: gauss(m)(jnp.asarray([-1.0, 1.0])), gcl, tier="quick" if m <= 6 else "thorough", tol=1e-12))

        def acl(i, o, m=m):
            (w0, x0), (w, x) = o
            n = 3
            ws, xs = [], []
            for k in range(n - 1):
                a, b = i.d[k], i.d[k + 1]
                ws += [(b - a) / 2 * t for t in w0]
                xs += [(a + b) / 2 + (b - a) / 2 * t for t in x0]
            return [("weights scale with the cell", SAME(w, oarr(ws))), ("nodes move with the cell", SAME(x, oarr(xs)))]

        out.append(H(f"gauss({m}) on any cells", dict(d=Arr(3)), lambda i, m=m: (gauss(m)(jnp.asarray([-1.0, 1.0])), gauss(m)(i.d)), acl,
                     tier="quick" if m <= 6 else "thorough"))
    return out


def _inc(n):
    return lambda rng: dict(d=np.cumsum(rng.uniform(0.1, 1, size=n)) - 1)
