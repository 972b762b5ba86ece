"""Rejection sampling: a proposal is returned exactly when its own draw accepts it."""
import itertools
import subprocess
import sys
import numpy as np
from .common import *
from magpi.sampling import rejection_sampling

INFO = dict(bounds="any density 0 <= pdf <= m (uninterpreted), any scale m > 0, any key (the generator is arbitrary); up to three rejected proposals per sample, 1-3 samples, scalar / vector / pytree proposals",
            outside="longer runs of rejections (the same loop body); statistical quality of JAX's generator")


def _bias():
    """the distribution of the samples of the real code"""
    for pdf, cdf, m in ((lambda x: 2 * x, lambda x: x * x, 2), (lambda x: 3 * (1 - x) ** 2, lambda x: 1 - (1 - x) ** 3, 4), (lambda x: jnp.where(x < 0.5, 1.8, 0.2), lambda x: np.where(x < 0.5, 1.8 * x, 0.8 + 0.2 * x), 2)):
        n = 20000
        for s in (0, 1):
            x = np.asarray(rejection_sampling(jax.random.key(s), pdf, lambda k: jax.random.uniform(k), n, m))
            x = np.sort(x)
            d = np.abs(cdf(x) - (np.arange(n) + 0.5) / n).max()
            if not d < 0.02:
                return f"{n} samples (key {s}, m={m}) are off the density: Kolmogorov-Smirnov distance {d:.3f}"
            if len(np.unique(x)) < n * 0.99:
                return f"{n} samples (key {s}) contain repetitions"
        # only the ratio of density and bound matters; factors are powers of two, hence exact
        draw = lambda c: np.asarray(rejection_sampling(jax.random.key(3), lambda x: c * pdf(x), lambda k: jax.random.uniform(k), 500, c * m))
        for c in (1 / 16, 16.0):
            if not np.array_equal(draw(1.0), draw(c)):
                return f"density and bound scaled by {c} give other samples"
    return None


_memo = []


def bias():
    if not _memo:
        try:
            r = subprocess.run([sys.executable, "-c", "from engine import run\nm, h = run.load('C23')\nprint('BIAS', m._bias() or '')"], capture_output=True, text=True, timeout=90)
            _memo.append(next((l[5:] for l in r.stdout.splitlines() if l.startswith("BIAS ")), ""))
        except subprocess.TimeoutExpired:
            _memo.append("sampling a bounded density does not return within 90 s")
    return _memo[0]


class _Dens:
    """stand-in for the density in runs of the real code"""

    def __call__(self, x):
        return 1 / (1 + x[..., 0] ** 2)


def guarded(i, a, b):
    return CAN(i, AND(a["guard"], b["guard"], tm.not_(tm.eq(a["vals"][()], b["vals"][()]))))


def harnesses():
    out = []
    f1 = lambda: ofun("pdf", 1)
    pdf_ax = lambda i: dict()
    for W in (0, 1, 2, 3):
        def fn(i):
            f = f1()
            return rejection_sampling(i.key, lambda x: f(x[None]), lambda k: jax.random.normal(k), 1, i.m)

        def cl(i, o, W=W):
            c = [("one sample", tm.boolc(np.shape(o) == (1,)))]
            if i.ctx is None:
                return c
            s = [d["vals"][()] for d in i.ctx.draws if d["kind"] == "normal"]
            p = [d["vals"][()] for d in i.ctx.draws if d["kind"] == "uniform"]
            c.append(("one proposal and one acceptance draw per round", tm.boolc(len(s) == W + 1 and len(p) == W + 1)))
            if not (len(s) == W + 1 and len(p) == W + 1):
                return c
            f = [app("pdf", [t]) for t in s]
            rej = []
            for k in range(W + 1):
                c.append((f"proposal {k} is returned when it is the first accepted one", IMP(AND(rej, LT(p[k] * i.m, f[k])), EQ(o[0], s[k]))))
                rej.append(LT(f[k], p[k] * i.m))
            ds = [d for d in i.ctx.draws]
            for kind in ("normal", "uniform"):
                dk = [d for d in ds if d["kind"] == kind]
                c.append((f"rounds draw afresh ({kind})", AND(*[guarded(i, a, b) for a, b in itertools.combinations(dk, 2)])))
            return c
        ax = lambda d, args, t: [tm.le(tm.ZERO, t)] if not d else []
        out.append(H(f"acceptance, {W} rejections", dict(key=Key(), m=pos()), fn, cl, while_bound=W, axioms=dict(pdf=ax), concrete=dict(pdf=_Dens()), cover=bias, isolate='C23'))

        def fn2(i):
            f = f1()
            return rejection_sampling(i.key, lambda x: f(x[None]), lambda k: jax.random.uniform(k), 1, i.m)

        def cl2(i, o):
            if i.ctx is None:
                return []
            return [("proposals and acceptance draws are independent", AND(*[guarded(i, a, b) for a, b in itertools.combinations([d for d in i.ctx.draws if d["kind"] == "uniform"], 2)]))]
        out.append(H(f"independence, {W} rejections", dict(key=Key(), m=pos()), fn2, cl2, while_bound=W, axioms=dict(pdf=ax), concrete=dict(pdf=_Dens()), cover=bias, isolate='C23'))
    for n in (2, 3):
        def fn3(i, n=n):
            f = f1()
            return rejection_sampling(i.key, lambda x: f(x["a"][None]), lambda k: dict(a=jax.random.normal(k), b=i.c * jax.random.normal(k)), n, i.m)

        def cl3(i, o, n=n):
            a, b = o["a"], o["b"]
            c = [("shape", tm.boolc(np.shape(a) == (n,) and np.shape(b) == (n,)))]
            c.append(("a sample is one proposal, not a mixture", EQ(b, oarr([i.c * t for t in a]))))
            c.append(("different samples use different randomness", AND(*[CAN(i, tm.not_(tm.eq(x, y))) for x, y in itertools.combinations(list(a), 2)])))
            return c
        out.append(H(f"{n} samples", dict(key=Key(), m=pos(), c=Arr()), fn3, cl3, while_bound=2 if n == 2 else 1, axioms=dict(pdf=ax), concrete=dict(pdf=_Dens()), cover=bias, isolate='C23'))
    # densities above zero somewhere are never sampled where the acceptance test must fail
    def fn4(i):
        return rejection_sampling(i.key, lambda x: jnp.where(x < 0, i.lo, i.hi), lambda k: jax.random.normal(k), 2, i.m)
    out.append(H("no sample where the density is negative", dict(key=Key(), m=pos(), lo=Arr(hi=0, hi_strict=True), hi=pos()), fn4,
                 lambda i, o: [("density", LE(0, o))], while_bound=3, sample=lambda g: dict(hi=1.5, lo=-1.0, m=2.0), isolate="C23"))
    return out
