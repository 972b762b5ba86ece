"""A JAX primitive for arbitrary smooth user supplied functions.

While the real code is traced, ``Opaque("f")(x)`` stays an uninterpreted symbol
f(x_0..x_{n-1}); its derivatives of any order are uninterpreted symbols as
well (indexed by the sorted multi-index, i.e. mixed partials commute).  A
property proved with it therefore holds for *every* smooth function.  For
replay and for the differential validation a concrete polynomial is installed.
"""
from __future__ import annotations
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from jax.extend.core import Primitive
from jax.interpreters import ad, batching
from jax.core import ShapedArray

opaque_p = Primitive("opaque")


@opaque_p.def_abstract_eval
def _abs(x, *, name, deriv):
    return ShapedArray(x.shape[:-1], x.dtype)


def _jvp(primals, tangents, *, name, deriv):
    (x,), (t,) = primals, tangents
    y = opaque_p.bind(x, name=name, deriv=deriv)
    if isinstance(t, ad.Zero):
        return y, ad.Zero.from_primal_value(y)
    out = None
    for i in range(x.shape[-1]):
        d = opaque_p.bind(x, name=name, deriv=tuple(sorted(deriv + (i,))))
        term = d * t[..., i]
        out = term if out is None else out + term
    return y, out


ad.primitive_jvps[opaque_p] = _jvp


def _batch(args, dims, *, name, deriv):
    (x,), (d,) = args, dims
    x = jnp.moveaxis(x, d, 0)
    return opaque_p.bind(x, name=name, deriv=deriv), 0


batching.primitive_batchers[opaque_p] = _batch

CONCRETE: dict = {}  # name -> Poly (installed for concrete runs)


class Poly:
    """sum of c * prod x_i^e_i, optionally centred"""

    def __init__(self, terms):
        self.terms = terms  # list of (exponents tuple, coefficient)

    def __call__(self, x):
        out = 0.0
        for e, c in self.terms:
            m = c
            for i, k in enumerate(e):
                for _ in range(k):
                    m = m * x[..., i]
            out = out + m
        return out + 0.0 * x[..., 0]

    def d(self, deriv, x):
        tot = 0.0
        for e, c in self.terms:
            e = list(e)
            m = c
            for i in deriv:
                m *= e[i]
                e[i] -= 1
                if m == 0:
                    break
            if m == 0:
                continue
            for i, k in enumerate(e):
                m *= x[i] ** k
            tot += m
        return tot

    def to_json(self):
        return [[list(e), c] for e, c in self.terms]

    @staticmethod
    def from_json(j):
        return Poly([(tuple(e), c) for e, c in j])


def monomials(n, deg):
    out = []
    for d in range(deg + 1):
        for c in itertools.combinations_with_replacement(range(n), d):
            e = [0] * n
            for i in c:
                e[i] += 1
            out.append(tuple(e))
    return out


def random_poly(rng, n, deg=3):
    return Poly([(e, float(rng.uniform(-1, 1))) for e in monomials(n, deg)])


def fit(table, n):
    """table: list of (point, deriv, value) -> Poly interpolating all of it, or None"""
    if not table:
        return Poly([((0,) * n, 0.0)])
    pts = np.array([p for p, _, _ in table], dtype=float).reshape(len(table), n)
    val = np.array([v for _, _, v in table], dtype=float)
    best = None
    for deg in range(0, 14):
        ms = monomials(n, deg)
        if len(ms) > 4000:
            break
        A = np.zeros((len(table), len(ms)))
        for j, e in enumerate(ms):
            p = Poly([(e, 1.0)])
            for i, (_, d, _) in enumerate(table):
                A[i, j] = p.d(d, pts[i])
        w = np.array([1.0 / (1.0 + 4.0 ** sum(e)) for e in ms])
        c, *_ = np.linalg.lstsq(A * w, val, rcond=None)
        err = np.max(np.abs((A * w) @ c - val))
        c = c * w
        if best is None or err < best[0]:
            best = (err, Poly([(e, float(v)) for e, v in zip(ms, c)]))
        if err <= 1e-9 * (1 + np.max(np.abs(val))):
            return best[1]
    return best[1] if best and best[0] < 1e-6 * (1 + np.max(np.abs(val))) else None


class Opaque:
    """callable on one array (..., n)"""

    def __init__(self, name, arity):
        self.name, self.arity = name, arity
        ARITY[name] = arity

    def __call__(self, x):
        x = jnp.asarray(x)
        assert x.shape[-1] == self.arity, (self.name, x.shape)
        if self.name in CONCRETE:
            return CONCRETE[self.name](x)
        return opaque_p.bind(x, name=self.name, deriv=())


ARITY: dict = {}


def ofun(name, arity):
    """scalar function of a vector"""
    return Opaque(name, arity)


def ovec(name, arity, m):
    """R^arity -> R^m"""
    fs = [Opaque(f"{name}{i}", arity) for i in range(m)]
    return lambda x: jnp.stack([f(x) for f in fs], axis=-1)


def oscalar(name):
    """R -> R, elementwise on any shape"""
    f = Opaque(name, 1)
    return lambda x: f(jnp.asarray(x)[..., None])


def omulti(name, shapes):
    """scalar function of several array arguments, flattened and concatenated"""
    n = sum(int(np.prod(s)) for s in shapes)
    f = Opaque(name, n)

    def g(*args):
        return f(jnp.concatenate([jnp.ravel(jnp.asarray(a)) for a in args]))

    return g
