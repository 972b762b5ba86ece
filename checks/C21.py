"""Mini batches: sampling with and without replacement keeps rows intact."""
import itertools
import numpy as np
from .common import *
from magpi.opt import batches_without_replacement, batches_with_replacement

INFO = dict(bounds="any data, any key (the generator is an arbitrary permutation / arbitrary index in range), 3-6 rows, all batch sizes, pytrees with leaves of different rank",
            outside="more rows; statistical quality of JAX's generator")


def member(o, n):
    return AND(LE(tm.iconst(0), o), LT(o, tm.iconst(n)))


def distinct(xs):
    return AND(*[tm.not_(tm.eq(a, b)) for a, b in itertools.combinations(list(xs), 2)]) if len(list(xs)) > 1 else tm.TRUE


def covered(fn, N, runs=400):
    """which rows appear at each position over many keys"""
    def f():
        g = jax.jit(fn)
        seen = np.stack([np.asarray(g(jax.random.key(k))) for k in range(runs)])
        for p in np.ndindex(*seen.shape[1:]):
            miss = set(range(N)) - set(seen[(slice(None),) + p].tolist())
            if miss:
                return f"row {min(miss)} never appears at position {p} in {runs} draws"
        return None
    return f


def every(i, ids, N):
    return AND(*[CAN(i, tm.eq(ids[p], tm.iconst(v))) for p in np.ndindex(*ids.shape) for v in range(N)])


def harnesses():
    out = []
    for N in (3, 4, 5, 6):
        for bs in range(1, N + 1):
            if N == 6 and bs not in (2, 4):
                continue
            nb = N // bs

            def fn(i, N=N, bs=bs):
                return batches_without_replacement(i.key, dict(id=jnp.arange(N), x=i.x, y=i.y, z=i.z), bs)

            def cl(i, o, N=N, bs=bs, nb=nb):
                ids, x, y, z = o["id"], o["x"], o["y"], o["z"]
                c = [("shape", tm.boolc(ids.shape == (nb, bs) and x.shape == (nb, bs) and y.shape == (nb, bs, 2) and z.shape == (nb, bs, 2, 1, 2)))]
                flat = list(ids.reshape(-1))
                c.append(("rows of the data", AND(*[member(t, N) for t in flat])))
                c.append(("no row twice", distinct(flat)))
                c.append(("leaves stay aligned", AND(*[IMP(EQ(ids[a, b], tm.iconst(v)), AND(EQ(x[a, b], i.x[v]), EQ(y[a, b, 0], i.y[v, 0]), EQ(y[a, b, 1], i.y[v, 1]), EQ(z[a, b], i.z[v]))) for a in range(nb) for b in range(bs) for v in range(N)])))
                if N < 6:
                    c.append(("every row can appear anywhere", every(i, ids, N)))
                if nb * bs == N:
                    c.append(("every row once", AND(*[OR(*[tm.eq(t, tm.iconst(v)) for t in flat]) for v in range(N)])))
                return c
            out.append(H(f"without replacement N={N} batch={bs}", dict(key=Key(), x=Arr(N), y=Arr(N, 2), z=Arr(N, 2, 1, 2)), fn, cl,
                         cover=covered(lambda k, N=N, bs=bs: batches_without_replacement(k, jnp.arange(N), bs), N)))
    for N, nb, bs in ((3, 2, 2), (4, 3, 2), (4, 2, 3), (3, 1, 3), (3, 2, 4)):
        for rep in (True, False, None):
            if rep is False and bs > N:
                continue
            kw = {} if rep is None else dict(replace_within_batch=rep)

            def fn(i, N=N, nb=nb, bs=bs, kw=kw):
                return batches_with_replacement(i.key, dict(id=jnp.arange(N), x=i.x, y=i.y, z=i.z), nb, bs, **kw)

            def cl(i, o, N=N, nb=nb, bs=bs, rep=rep):
                ids, x, y, z = o["id"], o["x"], o["y"], o["z"]
                c = [("shape", tm.boolc(ids.shape == (nb, bs) and x.shape == (nb, bs) and y.shape == (nb, bs, 2) and z.shape == (nb, bs, 2, 1, 2))),
                     ("rows of the data", AND(*[member(t, N) for t in ids.reshape(-1)])),
                     ("leaves stay aligned", AND(*[IMP(EQ(ids[a, b], tm.iconst(v)), AND(EQ(x[a, b], i.x[v]), EQ(y[a, b, 0], i.y[v, 0]), EQ(y[a, b, 1], i.y[v, 1]), EQ(z[a, b], i.z[v]))) for a in range(nb) for b in range(bs) for v in range(N)])),
                     ("every row can appear anywhere", every(i, ids, N)),
                     ("different batches are drawn independently", AND(*[CAN(i, tm.not_(tm.eq(ids[a, 0], ids[0, 0]))) for a in range(1, nb)]))]
                if rep is False:
                    c.append(("no row twice in one batch", AND(*[distinct(ids[a]) for a in range(nb)])))
                return c
            out.append(H(f"with replacement N={N} {nb}x{bs} within={rep}", dict(key=Key(), x=Arr(N), y=Arr(N, 2), z=Arr(N, 2, 1, 2)), fn, cl,
                         cover=covered(lambda k, N=N, nb=nb, bs=bs, kw=kw: batches_with_replacement(k, jnp.arange(N), nb, bs, **kw), N)))
    out.append(H("leaves of different length are refused", dict(key=Key(), x=Arr(3), y=Arr(4)),
                 lambda i: (raised(lambda: batches_without_replacement(i.key, (i.x, i.y), 2)), raised(lambda: batches_with_replacement(i.key, (i.x, i.y), 2, 2))),
                 lambda i, o: [("without replacement", o[0]), ("with replacement", o[1])]))
    return out
