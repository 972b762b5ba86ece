"""odeint: every trajectory point is one step of the chosen method from the previous one."""
from .common import *
from magpi.ode import odeint, rk4, explicit_euler

INFO = dict(bounds="any smooth right hand side f(y, t, args) (uninterpreted), scalar/vector/pytree states, any initial value and any 2-4 time points (increasing or decreasing), Runge-Kutta, Euler and user methods, unroll 1-3",
            outside="more time points (the same scan body, unrolled further)")


def s_euler(F, y, t, h):
    return [a + h * b for a, b in zip(y, F(y, t))]


def s_rk4(F, y, t, h):
    k1 = F(y, t)
    k2 = F([a + h / 2 * b for a, b in zip(y, k1)], t + h / 2)
    k3 = F([a + h / 2 * b for a, b in zip(y, k2)], t + h / 2)
    k4 = F([a + h * b for a, b in zip(y, k3)], t + h)
    return [a + h / 6 * (p + 2 * q + 2 * r + s) for a, p, q, r, s in zip(y, k1, k2, k3, k4)]


def run(step, F, y, ts):
    out = [list(y)]
    for k in range(len(ts) - 1):
        out.append(step(F, out[-1], ts[k], ts[k + 1] - ts[k]))
    return out


def harnesses():
    out = []
    METH = dict(euler=(explicit_euler, s_euler), rk4=(rk4, s_rk4))

    def df(n, extra=0, nm="f"):
        def f(y, t, *a):
            z = jnp.concatenate([jnp.ravel(y), jnp.asarray(t)[None]] + [jnp.asarray(v)[None] for v in a])
            return ovec(nm, n + 1 + extra, n)(z)
        return f

    def F(n, extra=(), nm="f"):
        return lambda y, t: [app(f"{nm}{k}", list(y) + [t] + list(extra)) for k in range(n)]

    for mn, (m, s) in METH.items():
        for n in (1, 2):
            out.append(H(f"one step {mn} n={n}", dict(y=Arr(n), t=Arr(), h=Arr()), lambda i, m=m, n=n: m(df(n), i.y, i.t, i.h),
                         lambda i, o, s=s, n=n: [("the method's formula", EQ(o, oarr(s(F(n), list(i.y), i.t, i.h))))]))
        out.append(H(f"one step {mn} with arguments", dict(y=Arr(1), t=Arr(), h=Arr(), p=Arr(), q=Arr()), lambda i, m=m: m(df(1, 2), i.y, i.t, i.h, i.p, i.q),
                     lambda i, o, s=s: [("the method's formula", EQ(o, oarr(s(F(1, (i.p, i.q)), list(i.y), i.t, i.h))))]))
        for n, T in ((1, 2), (1, 3), (2, 3), (1, 4)):
            if mn == "rk4" and T == 4 or mn == "rk4" and (n, T) == (2, 3):
                continue
            for u in (1, 2) if T == 3 else (1,):
                out.append(H(f"trajectory {mn} n={n} T={T} unroll={u}", dict(y=Arr(n), ts=Arr(T)), lambda i, m=m, n=n, u=u: odeint(df(n), i.y, i.ts, method=m, unroll=u),
                             lambda i, o, s=s, n=n: [("steps start at the previous time", EQ(o, oarr(run(s, F(n), list(i.y), list(i.ts)))))]))
        out.append(H(f"trajectory {mn} with arguments", dict(y=Arr(1), ts=Arr(3), p=Arr(), q=Arr()), lambda i, m=m: odeint(df(1, 2), i.y, i.ts, i.p, i.q, method=m),
                     lambda i, o, s=s: [("reach the right hand side", EQ(o, oarr(run(s, F(1, (i.p, i.q)), list(i.y), list(i.ts)))))]))
        # pytrees
        def tree(y, t):
            r = df(2)(jnp.concatenate([y["a"], y["b"][0][None]]), t)
            return dict(a=r[:1], b=(r[1],))
        out.append(H(f"pytree states {mn}", dict(a=Arr(1), b=Arr(), ts=Arr(2)), lambda i, m=m: odeint(tree, dict(a=i.a, b=(i.b,)), i.ts, method=m),
                     lambda i, o, s=s: [("same as the flat system", AND(*[EQ(oarr([o["a"][k, 0], o["b"][0][k]]), oarr(run(s, F(2), [i.a[0], i.b], list(i.ts))[k])) for k in range(2)]))]))
        out.append(H(f"scalar state {mn}", dict(y=Arr(), ts=Arr(3)), lambda i, m=m: odeint(lambda y, t: oscalar2("f", y, t), i.y, i.ts, method=m),
                     lambda i, o, s=s: [("trajectory", EQ(o, oarr([v[0] for v in run(s, lambda y, t: [app("f", [y[0], t])], [i.y], list(i.ts))])))]))
    out.append(H("default method", dict(y=Arr(1), ts=Arr(3)), lambda i: (odeint(df(1), i.y, i.ts), odeint(df(1), i.y, i.ts, method=rk4)), lambda i, o: [("Runge-Kutta", EQ(o[0], o[1]))]))
    # an arbitrary user method
    def user(f, y, t, dt, *a):
        return ovec("s", 4, 1)(jnp.concatenate([y, t[None], dt[None], f(y, t, *a)]))
    out.append(H("user supplied method", dict(y=Arr(1), ts=Arr(4)), lambda i: odeint(df(1), i.y, i.ts, method=user, unroll=3),
                 lambda i, o: [("called with state, start time and step", EQ(o, oarr(run(lambda F, y, t, h: [app("s0", [y[0], t, h, F(y, t)[0]])], F(1), list(i.y), list(i.ts)))))]))
    # exactness
    P3 = lambda i, t: i.c[0] + t * (i.c[1] + t * (i.c[2] + t * i.c[3]))
    I3 = lambda i, t: t * (i.c[0] + t * (i.c[1] / 2 + t * (i.c[2] / 3 + t * i.c[3] / 4)))
    out.append(H("rk4 integrates cubics in time exactly", dict(y=Arr(), c=Arr(4), ts=Arr(4)), lambda i: odeint(lambda y, t: P3(i, t), i.y, i.ts),
                 lambda i, o: [("antiderivative at every time", EQ(o, oarr([i.y + I3(i, t) - I3(i, i.ts[0]) for t in i.ts])))]))
    out.append(H("euler integrates constants exactly", dict(y=Arr(), c=Arr(), ts=Arr(4)), lambda i: odeint(lambda y, t: i.c + 0 * y, i.y, i.ts, method=explicit_euler),
                 lambda i, o: [("straight line", EQ(o, oarr([i.y + i.c * (t - i.ts[0]) for t in i.ts])))]))
    out.append(H("linear equations", dict(y=Arr(), a=Arr(), ts=Arr(2)), lambda i: (odeint(lambda y, t: i.a * y, i.y, i.ts), odeint(lambda y, t: i.a * y, i.y, i.ts, method=explicit_euler)),
                 lambda i, o: [("rk4: Taylor polynomial of degree 4", EQ(o[0][1], i.y * (1 + (z := i.a * (i.ts[1] - i.ts[0])) + z * z / 2 + z * z * z / 6 + z * z * z * z / 24))),
                               ("euler: degree 1", EQ(o[1][1], i.y * (1 + i.a * (i.ts[1] - i.ts[0]))))]))
    out.append(H("a constant right hand side zero keeps the state", dict(y=Arr(2), ts=Arr(4)), lambda i: odeint(lambda y, t: 0 * y, i.y, i.ts), lambda i, o: [("constant", EQ(o, oarr([list(i.y)] * 4)))]))
    # differentiation through the integrator, both modes
    for mode, jac in (("forward", jax.jacfwd), ("reverse", jax.jacrev)):
        def gfn(i, jac=jac):
            g = lambda y, p: odeint(df(1, 1), y[None], i.ts, p, method=explicit_euler)[-1, 0]
            return jac(g, argnums=(0, 1))(i.y, i.p)

        def gcl(i, o):
            t, h = list(i.ts), [i.ts[k + 1] - i.ts[k] for k in range(2)]
            z0 = [i.y, t[0], i.p]
            y1 = i.y + h[0] * app("f0", z0)
            z1 = [y1, t[1], i.p]
            dy1, dp1 = 1 + h[0] * app("f0", z0, (0,)), h[0] * app("f0", z0, (2,))
            return [("d/dy0", EQ(o[0], dy1 * (1 + h[1] * app("f0", z1, (0,))))), ("d/dp", EQ(o[1], dp1 + h[1] * (app("f0", z1, (0,)) * dp1 + app("f0", z1, (2,)))))]
        out.append(H(f"{mode} differentiation through the trajectory", dict(y=Arr(), p=Arr(), ts=Arr(3)), gfn, gcl))
    return out


def oscalar2(nm, y, t):
    return ofun(nm, 2)(jnp.stack([y, jnp.asarray(t)]))
