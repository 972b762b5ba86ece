"""MLP / mlp: composition of affine layers and activations."""
import numpy as np
from .common import *
from magpi.model import MLP, mlp

INFO = dict(bounds="any weights, biases and inputs, any activation (uninterpreted) and the default tanh, networks with 0-3 hidden layers of width 1-3, single samples and batches of up to 2x2 samples",
            outside="wider and deeper networks (the same loop, unrolled further)")


def opact():
    f = ofun("act", 1)
    return lambda x: f(x[..., None])


ARCH = [[2, 1], [2, 3], [1, 1], [1, 2, 1], [2, 2, 2], [2, 1, 2], [1, 1, 1], [3, 3, 3], [2, 3, 2, 1], [1, 2, 2, 3], [2, 2, 1, 2], [2, 1, 2, 1], [3, 1, 1, 2], [2, 3, 3, 3], [2, 2, 2, 2, 1], [1, 2, 1, 3, 2], [1, 2, 2, 2, 2, 1]]


def inputs(a):
    d = {}
    for k in range(len(a) - 1):
        d[f"W{k}"] = Arr(a[k], a[k + 1])
        d[f"b{k}"] = Arr(a[k + 1])
    return d


def params(i, a):
    L = len(a) - 1
    p = {}
    for k in range(L):
        p["output_layer" if k == L - 1 else f"layers_{k}"] = dict(kernel=getattr(i, f"W{k}"), bias=getattr(i, f"b{k}"))
    return dict(params=p)


def spec(i, a, x, act):
    L = len(a) - 1
    h = list(x)
    for k in range(L):
        W, b = getattr(i, f"W{k}"), getattr(i, f"b{k}")
        h = [tm.add(b[c], *[h[r] * W[r, c] for r in range(a[k])]) for c in range(a[k + 1])]
        if k < L - 1:
            h = [act(t) for t in h]
    return h[0] if a[-1] == 1 else oarr(h)


def harnesses():
    out = []
    acts = dict(any=(opact, lambda t: app("act", [t])), default=(lambda: None, lambda t: tm.fn("tanh", t)))
    for a in ARCH:
        for an, (mk, sp) in acts.items():
            for shape in ((), (2,), (1,), (2, 2), (1, 2), (2, 1), (1, 1), (3,)):
                if shape and (len(a) > 4 or (len(shape) == 2 and len(a) > 3)):
                    continue
                def fn(i, a=a, mk=mk):
                    return MLP(a[1:], mk()).apply(params(i, a), i.x)

                def cl(i, o, a=a, sp=sp, shape=shape):
                    want = shape if a[-1] == 1 else shape + (a[-1],)
                    c = [("shape", tm.boolc(np.shape(o) == want))]
                    if np.shape(o) != want:
                        return c
                    for s in np.ndindex(*shape):
                        v = o[s] if shape else o
                        c.append((f"sample {list(s)}", SAME(v, spec(i, a, i.x[s], sp))))
                    return c
                out.append(H(f"{a} activation={an} batch={list(shape)}", dict(inputs(a), x=Arr(*shape, a[0])), fn, cl))
        def shapes(i, a=a):
            m, p = mlp(i.key, a)
            m2, p2 = mlp(i.key, tuple(a), opact())
            x = i.x
            return dict(p=p, y=m.apply(p, x), p2=p2, y2=m2.apply(p2, x))

        def cl(i, o, a=a):
            L = len(a) - 1
            names = [f"layers_{k}" for k in range(L - 1)] + ["output_layer"]
            c = []
            for pn, y, act in (("p", "y", acts["default"][1]), ("p2", "y2", acts["any"][1])):
                p = o[pn]["params"]
                c.append(("exactly the parameters of the layers", tm.boolc(set(p) == set(names) and set(o[pn]) == {"params"})))
                if set(p) != set(names):
                    continue
                ok = all(np.shape(p[n]["kernel"]) == (a[k], a[k + 1]) and np.shape(p[n]["bias"]) == (a[k + 1],) for k, n in enumerate(names))
                c.append(("sizes", tm.boolc(ok)))
                if not ok:
                    continue
                j = SimpleNamespace(**{f"W{k}": p[n]["kernel"] for k, n in enumerate(names)}, **{f"b{k}": p[n]["bias"] for k, n in enumerate(names)})
                c.append(("the model applies its parameters", SAME(o[y], spec(j, a, i.x, act))))
                ws = [t for n in names for t in p[n]["kernel"].reshape(-1)]
                c.append(("biases start at zero", AND(*[EQ(t, 0) for n in names for t in p[n]["bias"].reshape(-1)])))
                c.append(("weights of different positions are drawn independently", AND(*[CAN(i, tm.not_(tm.eq(ws[0], t))) for t in ws[1:]])))
            return c
        if len(a) <= 4:
            out.append(H(f"mlp {a}", dict(key=Key(), x=Arr(a[0])), shapes, cl, diff=False))
    return out
