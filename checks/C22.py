"""make_iterator: batches in order, epochs and keys independent."""
import itertools
import numpy as np
from .common import *
from magpi.opt import make_iterator

INFO = dict(bounds="any key (the generator is arbitrary), any batch function, 0-3 epochs of 1-3 batches, 3 epochs of 12 and 7 epochs of 2 (pytrees included), with and without keys per batch; keys for up to 4 batches, keys derived from the handed out ones (one level of splitting) included",
            outside="more epochs and batches (the same loop, unrolled further); statistical quality of JAX's generator")


def same_on_runs(fn):
    """pairs of outputs which coincide for every one of some keys"""
    def f():
        a = np.stack([np.asarray(fn(jax.random.key(k))).reshape(-1) for k in range(5)])
        for p, q in itertools.combinations(range(a.shape[1]), 2):
            if (a[:, p] == a[:, q]).all():
                return f"draws {p} and {q} coincide for the keys 0-4: {a[0, p]} = {a[0, q]}"
        return None
    return f


def harnesses():
    out = []
    for ep, nb in ((0, 2), (1, 1), (1, 3), (2, 1), (2, 2), (3, 2), (2, 3), (3, 12), (7, 2)):
        for rng in (False, True):
            def fn(i, ep=ep, nb=nb, rng=rng):
                rec = []

                def batch_fn(key):
                    u = jax.random.uniform(key, (nb,))
                    b = dict(x=i.x * len(rec) + u, y=(i.y + u[:, None],))
                    rec.append(b)
                    return b
                it = list(make_iterator(i.key, ep, batch_fn, add_rng=rng) if rng else make_iterator(i.key, ep, batch_fn))
                return dict(it=[t[1] if rng else t for t in it], rec=rec)

            def cl(i, o, ep=ep, nb=nb):
                it, rec = o["it"], o["rec"]
                c = [("the batch function is called once per epoch", tm.boolc(len(rec) == ep)),
                     ("every batch of every epoch", tm.boolc(len(it) == ep * nb))]
                if len(it) != ep * nb:
                    return c
                for e in range(min(ep, len(rec))):
                    for k in range(nb):
                        g = it[e * nb + k]
                        c.append((f"epoch {e} batch {k}", AND(SAME(g["x"], rec[e]["x"][k]), SAME(g["y"][0], rec[e]["y"][0][k]))))
                return c
            out.append(H(f"order: {ep} epochs of {nb}, keys={rng}", dict(key=Key(), x=Arr(), y=Arr(nb, 2)), fn, cl))
        if ep == 0:
            continue

        def draws(key, ep, nb, rng, level):
            rec = []

            def batch_fn(k):
                # the batch function may itself split its key
                rec.extend([jax.random.uniform(k)] + [jax.random.uniform(q) for q in (jax.random.split(k, 3) if level else [])])
                return jnp.zeros(nb)
            got = []
            for t in make_iterator(key, ep, batch_fn, add_rng=rng):
                if rng:
                    got += [jax.random.uniform(t[0])] + [jax.random.uniform(q) for q in (jax.random.split(t[0], 3) if level else [])]
            return jnp.stack(rec + got)
        for rng in (False, True):
            for level in (0, 1):
                def cl(i, o):
                    return [("no randomness is handed out twice", AND(*[CAN(i, tm.not_(tm.eq(a, b))) for a, b in itertools.combinations(list(o), 2)]))]
                if ep * nb > 4:
                    continue
                f = lambda k, ep=ep, nb=nb, rng=rng, level=level: draws(k, ep, nb, rng, level)
                out.append(H(f"keys: {ep} epochs of {nb}, keys={rng}, derived={level}", dict(key=Key()), lambda i, f=f: f(i.key), cl, cover=same_on_runs(f)))
    out.append(H("batches of different length are refused", dict(key=Key(), x=Arr(2), y=Arr(3)),
                 lambda i: raised(lambda: list(make_iterator(i.key, 1, lambda k: (i.x, i.y)))), lambda i, o: [("refused", o)]))
    return out
