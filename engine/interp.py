"""Symbolic interpreter for jaxprs (JAX's compiler IR).

Every floating point value of the traced program becomes a real-valued term,
integers/booleans stay concrete where possible and are finite ite-trees
otherwise.  Control flow is merged (cond -> ite, scan unrolled, while unrolled
up to ctx.while_bound with the exit condition recorded as an assumption).
"""
from __future__ import annotations
import ast
import itertools
import re
import math
from fractions import Fraction
import numpy as np
import jax
from jax.extend import core as jcore
from . import terms as tm
from .terms import T, Unsupported


class Ctx:
    def __init__(self, while_bound=4):
        self.while_bound = while_bound
        self.assumptions = []  # bounds introduced by loop unrolling, contracts of stubs
        self.bounds = []       # human readable bounds hit
        self.draws = []        # PRNG consumption log
        self.key_uses = []     # every use of a key: (kind, key, guard)
        self.guard = [tm.TRUE]
        self.prims = {}
        self.jitname = []
        self.perm_cache = {}
        self.fresh = itertools.count()
        self.rand = {}         # variable -> how the real generator computes it
        self.app_subst = {}    # values assumed for user functions at given points


def isn(v):
    return v.dtype != object


def to_obj(v):
    """native ndarray -> object ndarray of terms"""
    if v.dtype == object:
        return v
    out = np.empty(v.shape, dtype=object)
    if v.dtype == np.bool_:
        f = lambda x: tm.boolc(bool(x))
    elif np.issubdtype(v.dtype, np.integer):
        f = lambda x: tm.iconst(int(x))
    else:
        f = lambda x: tm.recognise(float(x))
    of, vf = out.reshape(-1) if out.flags.c_contiguous else out.ravel(), v.reshape(-1)
    for i in range(vf.size):
        of[i] = f(vf[i])
    return of.reshape(v.shape)


def from_obj(v, dtype):
    """object array with only constants of an integer/bool dtype -> native"""
    if v.dtype != object:
        return v
    if dtype == np.bool_ or (np.issubdtype(dtype, np.integer)):
        flat = v.reshape(-1)
        if all(t.op in ("b", "c") for t in flat):
            return np.array([t.val if t.op == "b" else int(t.val) for t in flat], dtype=dtype).reshape(v.shape)
    return v


def const_value(x):
    """a jaxpr constant / literal -> value"""
    if hasattr(x, "dtype") and jax.dtypes.issubdtype(x.dtype, jax.dtypes.prng_key):
        data = np.asarray(jax.random.key_data(x))
        out = np.empty(x.shape, dtype=object)
        it = data.reshape(-1, data.shape[-1])
        of = out.reshape(-1)
        for i in range(of.size):
            of[i] = tm.var("key!" + "_".join(str(int(z)) for z in it[i]), "K")
        return of.reshape(x.shape)
    a = np.asarray(x)
    if a.dtype == object:
        return a
    if np.issubdtype(a.dtype, np.floating) or str(a.dtype) in ("bfloat16",):
        return to_obj(a.astype(np.float64))
    if np.issubdtype(a.dtype, np.complexfloating):
        raise Unsupported("complex values")
    return a


def vec(f):
    """elementwise on object arrays with numpy broadcasting"""
    u = np.frompyfunc(f, f.__code__.co_argcount, 1)

    def g(*xs):
        r = u(*xs)
        if not isinstance(r, np.ndarray):
            o = np.empty((), dtype=object)
            o[()] = r
            return o
        return r

    return g


HANDLERS = {}


def handler(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f

    return deco


def out_dtype(eqn, i=0):
    return eqn.outvars[i].aval.dtype


def is_float_dtype(d):
    return jax.dtypes.issubdtype(d, np.floating)


def is_key_dtype(d):
    return jax.dtypes.issubdtype(d, jax.dtypes.prng_key)


def eager(eqn, vals):
    """evaluate one equation concretely with JAX itself"""
    bp = eqn.primitive.get_bind_params(eqn.params)
    subfuns, params = ((), bp) if isinstance(bp, dict) else bp
    r = eqn.primitive.bind(*subfuns, *vals, **params)
    rs = r if eqn.primitive.multiple_results else [r]
    return [const_value(x) for x in rs]


def eval_jaxpr(ctx, jaxpr, consts, args):
    env = {}

    def read(v):
        if isinstance(v, jcore.Literal):
            return const_value(v.val).reshape(v.aval.shape)
        return env[v]

    for v, c in zip(jaxpr.constvars, consts):
        env[v] = c
    assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for eqn in jaxpr.eqns:
        ins = [read(v) for v in eqn.invars]
        name = eqn.primitive.name
        ctx.prims[name] = ctx.prims.get(name, 0) + 1
        h = HANDLERS.get(name)
        if h is None:
            if all(isn(x) for x in ins) and not any(is_float_dtype(o.aval.dtype) or is_key_dtype(o.aval.dtype) for o in eqn.outvars):
                outs = eager(eqn, ins)
            else:
                raise Unsupported(f"primitive {name}")
        else:
            outs = h(ctx, eqn, *ins)
        if not isinstance(outs, (list, tuple)):
            outs = [outs]
        for v, o in zip(eqn.outvars, outs):
            if isinstance(o, np.generic):
                o = np.asarray(o)
            if not isinstance(o, np.ndarray):
                z = np.empty((), dtype=object)
                z[()] = o
                o = z
            if o.dtype == object and not is_float_dtype(v.aval.dtype) and not is_key_dtype(v.aval.dtype):
                o = from_obj(o, v.aval.dtype)
            assert o.shape == v.aval.shape, (name, o.shape, v.aval.shape)
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


def eval_closed(ctx, closed, args):
    return eval_jaxpr(ctx, closed.jaxpr, [const_value(c) for c in closed.consts], args)


# ------------------------------------------------------------ elementwise
def _elem(name, f, nat=None):
    g = vec(f)

    def h(ctx, eqn, *xs):
        if nat is not None and all(isn(x) for x in xs):
            with np.errstate(all="ignore"):
                r = nat(*xs)
            return np.asarray(r).astype(out_dtype(eqn)) if not is_float_dtype(out_dtype(eqn)) else to_obj(np.asarray(r))
        return g(*[to_obj(x) for x in xs])

    HANDLERS[name] = h


def _b2i(t):
    return tm.ite(t, tm.iconst(1), tm.iconst(0)) if t.sort == "B" else t


_elem("add", lambda a, b: tm.add(a, b), np.add)
_elem("add_any", lambda a, b: tm.add(a, b), np.add)
_elem("sub", lambda a, b: tm.sub(a, b), np.subtract)
_elem("mul", lambda a, b: tm.mul(a, b), np.multiply)
_elem("neg", lambda a: tm.neg(a), np.negative)
_elem("max", lambda a, b: tm.or_(a, b) if a.sort == "B" else tm.max_(a, b), np.maximum)
_elem("min", lambda a, b: tm.and_(a, b) if a.sort == "B" else tm.min_(a, b), np.minimum)
_elem("abs", lambda a: tm.abs_(a), np.abs)
_elem("sign", lambda a: tm.ite(tm.lt(a, tm._c(0, a.sort)), tm._c(-1, a.sort), tm.ite(tm.lt(tm._c(0, a.sort), a), tm._c(1, a.sort), tm._c(0, a.sort))), np.sign)
_elem("square", lambda a: tm.mul(a, a), np.square)
_elem("sqrt", lambda a: tm.root(a, 2))
_elem("rsqrt", lambda a: tm.div(tm.ONE, tm.root(a, 2)))
_elem("cbrt", lambda a: _cbrt(a))
_elem("exp", lambda a: tm.fn("exp", a))
_elem("exp2", lambda a: tm.power(tm.const(2), a))
_elem("log", lambda a: tm.fn("log", a))
_elem("log1p", lambda a: tm.fn("log", tm.add(tm.ONE, a)))
_elem("expm1", lambda a: tm.sub(tm.fn("exp", a), tm.ONE))
_elem("tan", lambda a: tm.div(tm.fn("sin", a), tm.fn("cos", a)))
_elem("logistic", lambda a: tm.div(tm.ONE, tm.add(tm.ONE, tm.fn("exp", tm.neg(a)))))
for _n in ("sin", "cos", "asin", "acos", "atan", "sinh", "cosh", "tanh", "erf"):
    _elem(_n, (lambda n: (lambda a: tm.fn(n, a)))(_n))
_elem("eq", lambda a, b: tm.eq(a, b), np.equal)
_elem("ne", lambda a, b: tm.not_(tm.eq(a, b)), np.not_equal)
_elem("lt", lambda a, b: tm.lt(a, b) if a.sort != "B" else tm.and_(tm.not_(a), b), np.less)
_elem("le", lambda a, b: tm.le(a, b) if a.sort != "B" else tm.or_(tm.not_(a), b), np.less_equal)
_elem("gt", lambda a, b: tm.lt(b, a) if a.sort != "B" else tm.and_(tm.not_(b), a), np.greater)
_elem("ge", lambda a, b: tm.le(b, a) if a.sort != "B" else tm.or_(tm.not_(b), a), np.greater_equal)
_elem("is_finite", lambda a: tm.boolc(a.op not in ("inf", "nan")) if not tm._has_inf(a) else _isfinite(a))
_elem("floor", lambda a: tm.toreal(tm.floor(a)))
_elem("ceil", lambda a: tm.neg(tm.toreal(tm.floor(tm.neg(a)))))
_elem("copy", lambda a: a, lambda a: a)
_elem("copy_p", lambda a: a, lambda a: a)
_elem("stop_gradient", lambda a: a, lambda a: a)
_elem("reduce_precision", lambda a: a, lambda a: a)


def _isfinite(a):
    if a.op == "ite":
        return tm.ite(a.args[0], _isfinite(a.args[1]), _isfinite(a.args[2]))
    return tm.boolc(a.op not in ("inf", "nan"))


def _cbrt(a):
    return tm.root(a, 3)


@handler("and", "or", "xor", "not")
def _logic(ctx, eqn, *xs):
    n = eqn.primitive.name
    if all(isn(x) for x in xs):
        f = {"and": np.bitwise_and, "or": np.bitwise_or, "xor": np.bitwise_xor, "not": np.invert}[n]
        return f(*xs)
    xs = [to_obj(x) for x in xs]
    if any(t.sort != "B" for x in xs for t in x.reshape(-1)):
        raise Unsupported("bitwise operation on symbolic integers")
    f = {"and": lambda a, b: tm.and_(a, b), "or": lambda a, b: tm.or_(a, b), "xor": lambda a, b: tm.xor_(a, b), "not": lambda a: tm.not_(a)}[n]
    return vec(f)(*xs)


@handler("div")
def _div(ctx, eqn, a, b):
    if not is_float_dtype(out_dtype(eqn)):
        if isn(a) and isn(b):
            q = np.abs(a) // np.abs(b)
            return (np.sign(a) * np.sign(b) * q).astype(out_dtype(eqn))
        return vec(lambda x, y: _itree2(lambda p, q: tm.iconst(int(math.copysign(1, p * q)) * (abs(p) // abs(q)) if q else 0), x, y))(to_obj(a), to_obj(b))
    return vec(lambda x, y: tm.div(x, y))(to_obj(a), to_obj(b))


def _itree2(f, x, y):
    out = None
    for v, g in tm.cases_memo(x).items():
        for w, h in tm.cases_memo(y).items():
            r = f(v, w)
            c = tm.and_(g, h)
            if c is tm.FALSE:
                continue
            out = r if out is None else tm.ite(c, r, out)
    return out


def _trunc_rem(x, y):
    """C fmod: sign of the dividend"""
    if x.sort == "I":
        return _itree2(lambda p, q: tm.iconst(0 if q == 0 else int(math.fmod(p, q))), x, y)
    if y.op == "c" and y.val != 0:
        k = abs(y.val)
        f = lambda z: tm.sub(z, tm.mul(tm.const(k), tm.toreal(tm.floor(tm.mul(tm.const(1 / k), z)))))
        return tm.ite(tm.le(tm.ZERO, x), f(x), tm.neg(f(tm.neg(x))))
    raise Unsupported("rem by a symbolic divisor")


@handler("rem")
def _rem(ctx, eqn, a, b):
    if isn(a) and isn(b):
        bb = np.where(b == 0, 1, b)
        return np.fmod(a, bb).astype(out_dtype(eqn))
    return vec(_trunc_rem)(to_obj(a), to_obj(b))


@handler("round")
def _round(ctx, eqn, a):
    if isn(a):
        return eager(eqn, [a])
    even = "EVEN" in str(eqn.params["rounding_method"]).upper() or str(eqn.params["rounding_method"]) == "1"
    half = tm.const(Fraction(1, 2))
    fl = lambda t: tm.toreal(tm.floor(t))

    def one(x):
        up = fl(tm.add(x, half))
        dn = tm.neg(fl(tm.add(tm.neg(x), half)))  # differ on ties only
        if even:
            h = tm.mul(half, up)
            return tm.ite(tm.eq(fl(h), h), up, dn)
        return tm.ite(tm.le(tm.ZERO, x), up, dn)
    return vec(one)(a)


@handler("pow")
def _pow(ctx, eqn, a, b):
    return vec(lambda x, y: tm.power(x, y))(to_obj(a), to_obj(b))


@handler("integer_pow")
def _ipow(ctx, eqn, a):
    n = eqn.params["y"]
    if isn(a):
        return a**n
    return vec(lambda x: tm.ipow(x, n))(a)


@handler("atan2")
def _atan2(ctx, eqn, a, b):
    return vec(lambda x, y: tm.app("atan2", (x, y)))(to_obj(a), to_obj(b))


@handler("nextafter")
def _nextafter(ctx, eqn, a, b):
    return to_obj(a)


@handler("clamp")
def _clamp(ctx, eqn, lo, x, hi):
    if all(isn(z) for z in (lo, x, hi)):
        return np.minimum(np.maximum(x, lo), hi).astype(out_dtype(eqn))
    return vec(lambda l, x, h: tm.min_(tm.max_(x, l), h))(to_obj(lo), to_obj(x), to_obj(hi))


@handler("convert_element_type")
def _convert(ctx, eqn, a):
    d = out_dtype(eqn)
    if is_float_dtype(d):
        return vec(lambda x: tm.toreal(x))(to_obj(a))
    if isn(a):
        return a.astype(d)
    if d == np.bool_:
        return vec(lambda x: x if x.sort == "B" else tm.not_(tm.eq(x, tm._c(0, x.sort))))(a)

    def f(x):
        if x.sort == "B":
            return tm.ite(x, tm.iconst(1), tm.iconst(0))
        if x.sort == "I":
            return x
        if x.op == "c":
            return tm.iconst(int(x.val))
        if x.op == "toreal":
            return x.args[0]
        return tm.ite(tm.le(tm.ZERO, x), tm.floor(x), tm.neg(tm.floor(tm.neg(x))))

    return vec(f)(a)


@handler("bitcast_convert_type", "shift_right_logical", "shift_left", "population_count", "clz", "shift_right_arithmetic")
def _bits_only_concrete(ctx, eqn, *xs):
    if all(isn(x) for x in xs) and not is_float_dtype(out_dtype(eqn)):
        return eager(eqn, xs)
    raise Unsupported("bit-level operation on symbolic values: " + eqn.primitive.name)


@handler("select_n")
def _select(ctx, eqn, which, *cs):
    if isn(which):
        w = which.astype(int)
        if all(isn(c) for c in cs):
            r = np.choose(np.broadcast_to(w, cs[0].shape), cs) if w.shape == cs[0].shape else cs[int(w)]
            return np.asarray(r).astype(cs[0].dtype)
        os = [to_obj(c) for c in cs]
        if w.shape == () and os[0].shape != ():
            return os[int(w)]
        out = np.empty(os[0].shape, dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = os[int(w[i])][i]
        return out
    os = [to_obj(c) for c in cs]
    wb = np.broadcast_to(which, os[0].shape)
    out = np.empty(os[0].shape, dtype=object)
    for i in np.ndindex(*out.shape):
        t = wb[i]
        if t.sort == "B":
            out[i] = tm.ite(t, os[1][i], os[0][i])
        else:
            r = os[-1][i]
            for k in range(len(os) - 2, -1, -1):
                r = tm.ite(tm.eq(t, tm.iconst(k)), os[k][i], r)
            out[i] = r
    return out


# ------------------------------------------------------------ structure
@handler("broadcast_in_dim")
def _bid(ctx, eqn, a, *dyn):
    shape, bd = eqn.params["shape"], eqn.params["broadcast_dimensions"]
    s = [1] * len(shape)
    for i, d in enumerate(bd):
        s[d] = a.shape[i]
    return np.broadcast_to(a.reshape(s), shape).copy()


@handler("reshape")
def _reshape(ctx, eqn, a, *dyn):
    if eqn.params.get("dimensions") is not None:
        a = np.transpose(a, eqn.params["dimensions"])
    return np.ascontiguousarray(a).reshape(eqn.params["new_sizes"])


@handler("empty2", "empty")
def _empty(ctx, eqn, *a):
    av = eqn.outvars[0].aval
    return np.full(av.shape, tm.FALSE if av.dtype == bool else tm.iconst(0) if np.issubdtype(av.dtype, np.integer) else tm.ZERO, dtype=object)


@handler("squeeze")
def _squeeze(ctx, eqn, a):
    return np.ascontiguousarray(a).reshape(eqn.outvars[0].aval.shape)


@handler("expand_dims")
def _expand(ctx, eqn, a):
    return np.ascontiguousarray(a).reshape(eqn.outvars[0].aval.shape)


@handler("transpose")
def _transpose(ctx, eqn, a):
    return np.transpose(a, eqn.params["permutation"]).copy()


@handler("slice")
def _slice(ctx, eqn, a):
    p = eqn.params
    st = p["strides"] or (1,) * a.ndim
    return a[tuple(slice(s, l, k) for s, l, k in zip(p["start_indices"], p["limit_indices"], st))].copy()


@handler("rev")
def _rev(ctx, eqn, a):
    return np.flip(a, eqn.params["dimensions"]).copy()


def _same(xs):
    return xs if all(isn(x) for x in xs) else [to_obj(x) for x in xs]


@handler("concatenate")
def _concat(ctx, eqn, *xs):
    return np.concatenate(_same(xs), axis=eqn.params["dimension"])


@handler("stack")
def _stack(ctx, eqn, *xs):
    return np.stack(_same(xs), axis=eqn.params["axis"])


@handler("unstack")
def _unstack(ctx, eqn, a):
    ax = eqn.params["axis"]
    return [np.take(a, i, axis=ax) if a.ndim > 1 else _scalar(a[i], a) for i in range(a.shape[ax])]


def _scalar(x, like):
    o = np.empty((), dtype=like.dtype)
    o[()] = x
    return o


@handler("split")
def _split(ctx, eqn, a):
    sizes, ax = eqn.params["sizes"], eqn.params["axis"]
    idx = np.cumsum(sizes)[:-1]
    return [x.copy() for x in np.split(a, idx, axis=ax)]


@handler("iota")
def _iota(ctx, eqn, *dyn):
    p = eqn.params
    shape, dim = p["shape"], p["dimension"]
    r = np.arange(shape[dim]).reshape([-1 if i == dim else 1 for i in range(len(shape))])
    r = np.broadcast_to(r, shape)
    if is_float_dtype(p["dtype"]):
        return to_obj(r.astype(np.float64))
    return r.astype(p["dtype"])


@handler("pad")
def _pad(ctx, eqn, a, v):
    a, v = _same([a, v])
    cfg = eqn.params["padding_config"]
    ids = np.arange(a.size, dtype=np.int64).reshape(a.shape)
    r = np.asarray(jax.lax.pad(ids, np.int64(-1), cfg))
    return _take(a, r, v[()])


def _take(a, ids, fill):
    flat = np.ascontiguousarray(a).reshape(-1)
    out = np.empty(ids.shape, dtype=a.dtype)
    of = out.reshape(-1)
    for i, k in enumerate(ids.reshape(-1)):
        of[i] = flat[k] if k >= 0 else fill
    return of.reshape(ids.shape)


def _index_cases(idx):
    """all concrete instances of an index array with their guards"""
    if isn(idx):
        return [(idx, tm.TRUE)]
    flat = idx.reshape(-1)
    opts = [list(tm.cases_memo(t).items()) for t in flat]
    n = 1
    for o in opts:
        n *= len(o)
        if n > 20000:
            raise Unsupported("too many symbolic index combinations")
    out = []
    for combo in itertools.product(*opts):
        g = tm.and_(*[c[1] for c in combo])
        if g is tm.FALSE:
            continue
        out.append((np.array([c[0] for c in combo], dtype=np.int64).reshape(idx.shape), g))
    return out


def _merge(results):
    """[(array, guard)] -> ite-merged array"""
    if len(results) == 1:
        return results[0][0]
    arrs = [to_obj(r[0]) for r in results]
    out = arrs[-1].copy()
    for a, (_, g) in zip(reversed(arrs[:-1]), reversed(results[:-1])):
        for i in np.ndindex(*out.shape):
            out[i] = tm.ite(g, a[i], out[i])
    return out


@handler("dynamic_slice")
def _dslice(ctx, eqn, a, *idx):
    sizes = eqn.params["slice_sizes"]

    def one(ii):
        st = [min(max(int(i), 0), n - s) for i, n, s in zip(ii, a.shape, sizes)]
        return a[tuple(slice(s, s + z) for s, z in zip(st, sizes))].copy()

    if all(isn(i) for i in idx):
        return one([i[()] for i in idx])
    z = np.empty(len(idx), dtype=object)
    for k, i in enumerate(idx):
        z[k] = to_obj(i)[()]
    return _merge([(one(ii), g) for ii, g in _index_cases(z)])


@handler("dynamic_update_slice")
def _dus(ctx, eqn, a, u, *idx):
    a, u = _same([a, u])

    def one(ii):
        st = [min(max(int(i), 0), n - s) for i, n, s in zip(ii, a.shape, u.shape)]
        r = a.copy()
        r[tuple(slice(s, s + z) for s, z in zip(st, u.shape))] = u
        return r

    if all(isn(i) for i in idx):
        return one([i[()] for i in idx])
    z = np.empty(len(idx), dtype=object)
    for k, i in enumerate(idx):
        z[k] = to_obj(i)[()]
    return _merge([(one(ii), g) for ii, g in _index_cases(z)])


@handler("gather")
def _gather(ctx, eqn, a, idx):
    p = dict(eqn.params)
    mode = p["mode"]
    fill = p.get("fill_value")
    ids = np.arange(a.size, dtype=np.int64).reshape(a.shape)
    p["fill_value"] = -1 if str(mode).endswith("FILL_OR_DROP") else None
    if isn(a):
        if np.issubdtype(a.dtype, np.bool_):
            fv = bool(fill) if fill is not None else True
        else:
            fv = fill if fill is not None else (np.iinfo(a.dtype).min if np.issubdtype(a.dtype, np.signedinteger) else np.iinfo(a.dtype).max)
    else:
        fv = tm.lift(fill) if fill is not None else tm.NAN

    if not isn(idx) and idx.size > 1 and (idx.shape[-1] == 1):
        # independent scalar indices: resolve each position on its own
        flat = idx.reshape(-1)
        per = []
        for k in range(flat.size):
            cs = []
            for v, g in tm.cases_memo(flat[k]).items():
                cs.append((v, g))
            per.append(cs)
        base = np.zeros(idx.shape, dtype=np.int64)
        # position of every output element -> which index row it uses
        rows = np.arange(flat.size, dtype=np.int64)
        nd = eqn.params["dimension_numbers"]
        outs = {}
        for v in sorted({v for cs in per for v, _ in cs}):
            iv = np.full(idx.shape, v, dtype=np.int64)
            outs[v] = _take(a, np.asarray(eqn.primitive.bind(ids, iv, **p)), fv)
        oshape = eqn.outvars[0].aval.shape
        batch_dims = [i for i in range(len(oshape)) if i not in nd.offset_dims]
        out = np.empty(oshape, dtype=object)
        bshape = idx.shape[:-1]
        for pos in np.ndindex(*oshape):
            b = tuple(pos[i] for i in batch_dims)
            k = int(np.ravel_multi_index(b, bshape)) if bshape else 0
            cs = per[k]
            r = to_obj(outs[cs[-1][0]])[pos]
            for v, g in reversed(cs[:-1]):
                r = tm.ite(g, to_obj(outs[v])[pos], r)
            out[pos] = r
        return out

    def one(iv):
        return _take(a, np.asarray(eqn.primitive.bind(ids, iv, **p)), fv)

    return _merge([(one(iv), g) for iv, g in _index_cases(idx)])


@handler("scatter")
def _scatter(ctx, eqn, a, idx, u):
    a, u = _same([a, u])
    ids = np.arange(a.size, dtype=np.int64).reshape(a.shape)
    uids = a.size + np.arange(u.size, dtype=np.int64).reshape(u.shape)
    pool = np.concatenate([np.ascontiguousarray(a).reshape(-1), np.ascontiguousarray(u).reshape(-1)])

    def one(iv):
        r = np.asarray(eqn.primitive.bind(ids, iv, uids, **eqn.params))
        return _take(pool, r, None)

    return _merge([(one(iv), g) for iv, g in _index_cases(idx)])


@handler("scatter-add", "scatter_add", "scatter-sub", "scatter-mul", "scatter-min", "scatter-max")
def _scatter_op(ctx, eqn, a, idx, u):
    a, u = _same([a, u])
    f = {"scatter-add": tm.add, "scatter_add": tm.add, "scatter-sub": tm.sub, "scatter-mul": tm.mul, "scatter-min": tm.min_, "scatter-max": tm.max_}[eqn.primitive.name]
    if all(isn(x) for x in (a, u, idx)):
        return eager(eqn, [a, idx, u])
    a, u = to_obj(a), to_obj(u)
    p = dict(eqn.params)
    p["update_jaxpr"] = None
    p["update_consts"] = ()
    from jax._src.lax import slicing

    def one(iv):
        out = a.copy().reshape(-1)
        uf = u.reshape(-1)
        for k in range(u.size):
            m = np.zeros(u.shape, dtype=np.int64).reshape(-1)
            m[k] = 1
            z = np.asarray(slicing.scatter_add_p.bind(np.zeros(a.shape, np.int64), iv, m.reshape(u.shape), **{**eqn.params, "update_jaxpr": p["update_jaxpr"]}))
            for pos in np.nonzero(z.reshape(-1))[0]:
                out[pos] = f(out[pos], uf[k])
        return out.reshape(a.shape)

    return _merge([(one(iv), g) for iv, g in _index_cases(idx)])


# ------------------------------------------------------------ reductions
def _reduce(a, axes, f, init):
    axes = tuple(ax % a.ndim for ax in axes)
    keep = [i for i in range(a.ndim) if i not in axes]
    b = np.transpose(a, keep + list(axes)).reshape([a.shape[i] for i in keep] + [-1])
    out = np.empty([a.shape[i] for i in keep], dtype=object)
    for i in np.ndindex(*out.shape):
        xs = list(b[i])
        out[i] = f(xs) if xs else init
    return out


def _fold2(f):
    def g(xs):
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r

    return g


@handler("reduce_sum", "reduce_prod", "reduce_max", "reduce_min", "reduce_and", "reduce_or")
def _red(ctx, eqn, a):
    n = eqn.primitive.name
    axes = eqn.params["axes"]
    if isn(a):
        f = {"reduce_sum": np.sum, "reduce_prod": np.prod, "reduce_max": np.max, "reduce_min": np.min, "reduce_and": np.all, "reduce_or": np.any}[n]
        return np.asarray(f(a, axis=tuple(axes))).astype(out_dtype(eqn))
    z = tm.ZERO if is_float_dtype(out_dtype(eqn)) else tm.iconst(0)
    one = tm.ONE if is_float_dtype(out_dtype(eqn)) else tm.iconst(1)
    f, init = {
        "reduce_sum": (lambda xs: tm.add(*xs), z),
        "reduce_prod": (lambda xs: tm.mul(*xs), one),
        "reduce_max": (_fold2(tm.max_), tm.NINF),
        "reduce_min": (_fold2(tm.min_), tm.INF),
        "reduce_and": (lambda xs: tm.and_(*xs), tm.TRUE),
        "reduce_or": (lambda xs: tm.or_(*xs), tm.FALSE),
    }[n]
    return _reduce(a, axes, f, init)


@handler("argmax", "argmin")
def _arg(ctx, eqn, a):
    (ax,) = eqn.params["axes"]
    n = eqn.primitive.name
    if isn(a):
        return (np.argmax if n == "argmax" else np.argmin)(a, axis=ax).astype(out_dtype(eqn))
    better = (lambda x, y: tm.lt(y, x)) if n == "argmax" else (lambda x, y: tm.lt(x, y))

    def f(xs):
        if xs[0].sort == "B":
            hit = (lambda t: t) if n == "argmax" else tm.not_
            r = tm.iconst(0)
            for i in range(len(xs) - 1, -1, -1):
                r = tm.ite(hit(xs[i]), tm.iconst(i), r)
            return r
        bi, bv = tm.iconst(0), xs[0]
        for i in range(1, len(xs)):
            c = better(xs[i], bv)
            bi, bv = tm.ite(c, tm.iconst(i), bi), tm.ite(c, xs[i], bv)
        return bi

    return _reduce(a, (ax,), f, None)


@handler("cumsum", "cumprod", "cummax", "cummin")
def _cum(ctx, eqn, a):
    n = eqn.primitive.name
    ax, rev = eqn.params["axis"], eqn.params["reverse"]
    if isn(a):
        f = {"cumsum": np.cumsum, "cumprod": np.cumprod, "cummax": np.maximum.accumulate, "cummin": np.minimum.accumulate}[n]
        b = np.flip(a, ax) if rev else a
        r = f(b, axis=ax)
        return (np.flip(r, ax) if rev else r).astype(out_dtype(eqn))
    f = {"cumsum": tm.add, "cumprod": tm.mul, "cummax": tm.max_, "cummin": tm.min_}[n]
    b = np.moveaxis(a, ax, 0).copy()
    if rev:
        b = b[::-1].copy()
    for i in range(1, b.shape[0]):
        for p in np.ndindex(*b.shape[1:]):
            b[(i,) + p] = f(b[(i - 1,) + p], b[(i,) + p])
    if rev:
        b = b[::-1]
    return np.moveaxis(b, 0, ax).copy()


@handler("dot_general")
def _dot(ctx, eqn, a, b):
    (ca, cb), (ba, bb) = eqn.params["dimension_numbers"]
    nat = isn(a) and isn(b)
    if not nat:
        a, b = to_obj(a), to_obj(b)
    fa = [i for i in range(a.ndim) if i not in ca and i not in ba]
    fb = [i for i in range(b.ndim) if i not in cb and i not in bb]
    B = [a.shape[i] for i in ba]
    FA, FB = [a.shape[i] for i in fa], [b.shape[i] for i in fb]
    K = int(np.prod([a.shape[i] for i in ca])) if ca else 1
    x = np.transpose(a, list(ba) + fa + list(ca)).reshape(B + [int(np.prod(FA)), K])
    y = np.transpose(b, list(bb) + fb + list(cb)).reshape(B + [int(np.prod(FB)), K])
    if nat:
        r = np.einsum("...ik,...jk->...ij", x, y).reshape(B + FA + FB)
        return r.astype(out_dtype(eqn)) if not is_float_dtype(out_dtype(eqn)) else to_obj(r)
    out = np.empty(B + [x.shape[-2], y.shape[-2]], dtype=object)
    zero = tm.ZERO if is_float_dtype(out_dtype(eqn)) else tm.iconst(0)
    for i in np.ndindex(*out.shape):
        xi, yi = x[i[:-2] + (i[-2],)], y[i[:-2] + (i[-1],)]
        out[i] = tm.add(zero, *[tm.mul(p, q) for p, q in zip(xi, yi)])
    return out.reshape(B + FA + FB)


# ------------------------------------------------------------ sorting
@handler("sort")
def _sort(ctx, eqn, *ops):
    p = eqn.params
    if all(isn(o) for o in ops):
        return eager(eqn, ops)
    dim, nk = p["dimension"], p["num_keys"]
    if nk != 1:
        raise Unsupported("sort with several keys")
    keys = ops[0]
    moved = [np.moveaxis(to_obj(o), dim, -1).copy() for o in ops]
    outs = [np.empty(m.shape, dtype=object) for m in moved]
    for i in np.ndindex(*moved[0].shape[:-1]):
        cols = [list(m[i]) for m in moved]
        n = len(cols[0])
        if all(t.op == "app" and t.val[0][:4] == "bits" for t in cols[0]):
            perm = _permutation(ctx, tuple(cols[0]))
            for o, c in zip(outs[1:], cols[1:]):
                for k in range(n):
                    r = c[-1]
                    for v in range(n - 2, -1, -1):
                        r = tm.ite(tm.eq(perm[k], tm.iconst(v)), c[v], r)
                    if all(x.op == "c" and x.sort == "I" and x.val == j for j, x in enumerate(c)):
                        r = perm[k]
                    o[i][k] = r
            for k in range(n):
                outs[0][i][k] = tm._mk("app", (cols[0][k],), ("sorted", ()), "I")
            continue
        # stable insertion by adjacent exchanges
        for e in range(1, n):
            for k in range(e, 0, -1):
                c = tm.lt(cols[0][k], cols[0][k - 1])
                for col in cols:
                    lo, hi = tm.ite(c, col[k], col[k - 1]), tm.ite(c, col[k - 1], col[k])
                    col[k - 1], col[k] = lo, hi
        for o, c in zip(outs, cols):
            for k in range(n):
                o[i][k] = c[k]
    return [np.moveaxis(o, -1, dim).copy() for o in outs]


def _permutation(ctx, keys):
    """sorting by fresh random bits = an arbitrary permutation (contract of the PRNG stub)"""
    if keys in ctx.perm_cache:
        return ctx.perm_cache[keys]
    n = len(keys)
    tag = next(ctx.fresh)
    vs = [tm.var(f"perm{tag}_{i}", "I", lo=0, hi=n - 1) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assumptions.append(tm.ne(vs[i], vs[j]))
    ctx.perm_cache[keys] = vs
    return vs


@handler("call_hi_primitive")
def _hi(ctx, eqn, *xs):
    prim = eqn.params.get("_prim")
    name = type(prim).__name__
    if all(isn(x) for x in xs):
        return eager(eqn, xs)
    if name == "Nonzero" and len(eqn.outvars) == 1 and (xs[0].ndim == 1 or tuple(getattr(prim, "axes", eqn.params.get("axes", ())) or ()) == (xs[0].ndim - 1,)):
        size = eqn.outvars[0].aval.shape[-1]
        m = xs[0]

        def row(m):
            opts = []
            for t in m:
                opts.append([(True, t)] if t.op == "b" and t.val else [(False, tm.not_(t))] if t.op == "b" else [(True, t), (False, tm.not_(t))])
            res = []
            for combo in itertools.product(*opts):
                g = tm.and_(*[c[1] for c in combo])
                if g is tm.FALSE:
                    continue
                nz = [i for i, c in enumerate(combo) if c[0]][:size]
                nz += [0] * (size - len(nz))
                res.append((np.array(nz, dtype=np.int64), g))
            return _merge(res)

        lead = m.shape[:-1]
        if not lead:
            return row(m)
        rows = [to_obj(np.asarray(row(m[k]))) for k in np.ndindex(*lead)]
        return np.stack(rows).reshape(lead + (size,))
    if name == "SearchSorted":
        P = dict(getattr(prim, "params", None) or eqn.params)
        nb = P["batch_dims"]
        if P["dimension"] == nb and xs[0].ndim == nb + 1:
            # the first position which keeps the (sorted) array sorted
            rel = tm.lt if P["side"] == "left" else tm.le
            arr, q = to_obj(xs[0]), to_obj(xs[1])
            out = np.empty(eqn.outvars[0].aval.shape, dtype=object)
            for k in np.ndindex(*q.shape):
                row = arr[k[:nb]]
                t = tm.iconst(len(row))
                for j in range(len(row) - 1, -1, -1):
                    t = tm.ite(rel(row[j], q[k]), t, tm.iconst(j))
                out[k] = t
            return out
    raise Unsupported("hi primitive " + name)


# ------------------------------------------------------------ calls and control flow
def _call(ctx, closed, args):
    if hasattr(closed, "jaxpr"):
        return eval_closed(ctx, closed, args)
    return eval_jaxpr(ctx, closed, [], args)


RANDOM_STUBS = {}


@handler("jit", "pjit", "closed_call", "core_call", "remat", "remat2", "checkpoint", "custom_jvp_call", "custom_vjp_call", "custom_vjp_call_jaxpr", "custom_lin")
def _jit(ctx, eqn, *xs):
    p = eqn.params
    name = p.get("name")
    if name in RANDOM_STUBS:
        return RANDOM_STUBS[name](ctx, eqn, *xs)
    if name == "floor_divide" and len(xs) == 2 and is_float_dtype(out_dtype(eqn)) and not all(isn(x) for x in xs):
        return [vec(lambda u, v: tm.toreal(tm.floor(tm.div(u, v))))(to_obj(xs[0]), to_obj(xs[1]))]
    if eqn.primitive.name == "custom_jvp_call" and len(xs) == 2 and len(eqn.outvars) == 3 and "_hypot" in str(p.get("name")) + str(getattr(getattr(p.get("call_jaxpr"), "jaxpr", None), "debug_info", "")):
        # scaled by powers of two against overflow: over the reals, the root and the direction cosines
        a, b = (to_obj(x) for x in xs)
        r = vec(lambda u, v: tm.root(tm.add(tm.mul(u, u), tm.mul(v, v)), 2))(a, b)
        return [r, vec(tm.div)(a, r), vec(tm.div)(b, r)]
    closed = p.get("jaxpr") or p.get("call_jaxpr") or p.get("fun_jaxpr")
    return _call(ctx, closed, list(xs))


@handler("custom_linear_solve")
def _cls(ctx, eqn, *xs):
    cl = eqn.params["const_lengths"]
    jx = eqn.params["jaxprs"]
    n = [cl.matvec, cl.vecmat, cl.solve, cl.transpose_solve]
    off = np.cumsum([0] + n)
    sc = list(xs[off[2]:off[3]])
    b = list(xs[off[4]:])
    if not any(getattr(x, "dtype", None) == object and any(t is None for t in x.reshape(-1)) for x in sc):
        return _call(ctx, jx.solve, sc + b)
    # no factorisation of a symbolic matrix: the solution itself, by Cramer's rule
    if len(b) != 1:
        raise Unsupported("linear solve of a tree with a symbolic matrix")
    n, shape = b[0].size, b[0].shape
    if n > 64:
        raise Unsupported("large linear solve with a symbolic matrix")
    mv = list(xs[off[0]:off[1]])
    cols = []
    for k in range(n):
        e = np.zeros(n)
        e[k] = 1.0
        cols.append(to_obj(_call(ctx, jx.matvec, mv + [e.reshape(shape)])[0]).reshape(-1))
    A = np.array(cols, dtype=object).T.copy()
    return [cramer(A, to_obj(b[0]).reshape(-1, 1)).reshape(shape)]


def determinant(A):
    n = len(A)
    if n == 0:
        return tm.ONE
    return tm.add(tm.ZERO, *[tm.mul(tm.const((-1) ** k), A[0][k], determinant([r[:k] + r[k + 1:] for r in A[1:]])) for k in range(n) if A[0][k] is not tm.ZERO])


def cramer(A, B):
    """A X = B for a regular matrix, block by block"""
    n = A.shape[0]
    left, X = set(range(n)), np.empty(B.shape, dtype=object)
    while left:
        rows, cols, todo = set(), set(), [min(left)]
        while todo:
            r = todo.pop()
            if r in rows:
                continue
            rows.add(r)
            for c in range(n):
                if A[r, c] is not tm.ZERO and c not in cols:
                    cols.add(c)
                    todo += [q for q in range(n) if A[q, c] is not tm.ZERO and q not in rows]
        left -= rows
        R, C = sorted(rows), sorted(cols)
        if len(R) != len(C) or len(R) > 4:
            raise Unsupported(f"linear solve with a symbolic {len(R)}x{len(C)} matrix")
        M = [[A[r, c] for c in C] for r in R]
        d = determinant(M)
        for j in range(B.shape[1]):
            for k, c in enumerate(C):
                X[c, j] = tm.div(determinant([row[:k] + [B[r, j]] + row[k + 1:] for r, row in zip(R, M)]), d)
    return X


_elem("log2", lambda a: tm.div(tm.fn("log", a), tm.fn("log", tm.const(2))))
_elem("one_minus_square", lambda a: tm.sub(tm.ONE, tm.mul(a, a)))
_elem("name", lambda a: a, lambda a: a)


@handler("tile")
def _tile(ctx, eqn, a):
    return np.tile(a, tuple(eqn.params["reps"]))


@handler("optimization_barrier", "device_put")
def _ident(ctx, eqn, *xs):
    return list(xs)


@handler("polynomial")
def _polynomial(ctx, eqn, x, *cs):
    out = to_obj(cs[-1])
    for c in cs[-2::-1]:
        out = vec(lambda a, b, d: tm.add(tm.mul(a, b), d))(out, to_obj(x), to_obj(c))
    return out


@handler("reduce_xor")
def _redxor(ctx, eqn, a):
    if isn(a):
        return eager(eqn, [a])
    def fold(xs):
        r = tm.FALSE
        for q in xs:
            r = tm.or_(tm.and_(r, tm.not_(q)), tm.and_(tm.not_(r), q))
        return r
    return _reduce(a, eqn.params["axes"], fold, tm.FALSE)


def _atan2(y, x):
    r = tm.root(tm.add(tm.mul(x, x), tm.mul(y, y)), 2)
    a = tm.fn("acos", tm.div(x, r))
    return tm.ite(tm.eq(r, tm.ZERO), tm.ZERO, tm.ite(tm.le(tm.ZERO, y), a, tm.neg(a)))


@handler("atan2")
def _atan2_h(ctx, eqn, y, x):
    return vec(_atan2)(to_obj(y), to_obj(x))


@handler("lu")
def _lu(ctx, eqn, a):
    if not isn(a):
        f = [t.op == "c" for t in a.reshape(-1)]
        if not all(f):
            # stand-in that only custom_linear_solve accepts
            return [np.full(a.shape, None, dtype=object), np.zeros(a.shape[-1:], np.int32), np.arange(a.shape[-2], dtype=np.int32)]
        v = np.array([float(t.val) for t in a.reshape(-1)]).reshape(a.shape)
    else:
        v = a
    return eager(eqn, [v])


@handler("lu_pivots_to_permutation")
def _lup(ctx, eqn, a):
    return eager(eqn, [a])


@handler("triangular_solve")
def _trisolve(ctx, eqn, a, b):
    p = eqn.params
    a, b = to_obj(a), to_obj(b)
    if a.ndim != 2:
        raise Unsupported("batched triangular solve")
    A, lower = a, p["lower"]
    if p["transpose_a"]:
        A, lower = A.T, not lower
    B = b
    if not p["left_side"]:
        A, lower, B = A.T, not lower, b.T
    n = A.shape[0]
    X = np.empty(B.shape, dtype=object)
    for j in range(B.shape[1]):
        rng = range(n) if lower else range(n - 1, -1, -1)
        done = []
        for i in rng:
            s = B[i, j]
            for k in done:
                s = tm.sub(s, tm.mul(A[i, k], X[k, j]))
            X[i, j] = s if p["unit_diagonal"] else tm.div(s, A[i, i])
            done.append(i)
    return X if p["left_side"] else X.T.copy()


def _with_guard(ctx, g, f):
    ctx.guard.append(tm.and_(ctx.guard[-1], g))
    try:
        return f()
    finally:
        ctx.guard.pop()


def _ite_arr(c, a, b):
    if isn(a) and isn(b) and a.dtype == b.dtype and np.array_equal(a, b):
        return a
    a, b = to_obj(a), to_obj(b)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = tm.ite(c, a[i], b[i])
    return out


@handler("cond")
def _cond(ctx, eqn, idx, *xs):
    br = eqn.params["branches"]
    if isn(idx):
        k = min(max(int(idx), 0), len(br) - 1)
        return eval_closed(ctx, br[k], list(xs))
    t = to_obj(idx)[()]
    guards = []
    for k in range(len(br)):
        if t.sort == "B":
            guards.append(t if k == 1 else tm.not_(t))
        elif k == 0:
            guards.append(tm.le(t, tm.iconst(0)))
        elif k == len(br) - 1:
            guards.append(tm.le(tm.iconst(k), t))
        else:
            guards.append(tm.eq(t, tm.iconst(k)))
    live = [k for k in range(len(br)) if guards[k] is not tm.FALSE]
    res = {k: _with_guard(ctx, guards[k], lambda k=k: eval_closed(ctx, br[k], list(xs))) for k in live}
    out = res[live[-1]]
    for k in reversed(live[:-1]):
        out = [_ite_arr(guards[k], a, b) for a, b in zip(res[k], out)]
    return out


@handler("while")
def _while(ctx, eqn, *xs):
    p = eqn.params
    nc, nb = p["cond_nconsts"], p["body_nconsts"]
    cc, bc, carry = list(xs[:nc]), list(xs[nc:nc + nb]), list(xs[nc + nb:])
    alive = None
    it = 0
    while True:
        (c,) = eval_closed(ctx, p["cond_jaxpr"], cc + carry)
        c = to_obj(c)
        if alive is None:
            alive = np.full(c.shape, tm.TRUE, dtype=object)
        go = np.empty(c.shape, dtype=object)
        for i in np.ndindex(*c.shape):
            go[i] = tm.and_(alive[i], c[i])
        some = tm.or_(*list(go.reshape(-1))) if go.size else tm.FALSE
        if some is tm.FALSE:
            return carry
        # a symbolic loop is unrolled while_bound times, a concrete one to its end
        conc = all(t.op == "b" for t in go.reshape(-1))
        if it >= ctx.while_bound and not (conc and it < 5000):
            ctx.assumptions.append(tm.implies(ctx.guard[-1], tm.not_(some)))
            ctx.bounds.append(f"while loop: executions leaving the loop within {it} iterations")
            return carry
        new = _with_guard(ctx, some, lambda: eval_closed(ctx, p["body_jaxpr"], bc + carry))
        if go.shape == ():
            carry = [_ite_arr(some, a, b) for a, b in zip(new, carry)] if some is not tm.TRUE else new
        else:
            carry = [_ite_lanes(go, a, b) for a, b in zip(new, carry)]   # lanes of a vectorised loop stop on their own
        carry = [from_obj(x, v.aval.dtype) if not (is_float_dtype(v.aval.dtype) or is_key_dtype(v.aval.dtype)) else x for x, v in zip(carry, eqn.outvars)]
        alive = go
        it += 1


def _ite_lanes(go, a, b):
    a, b = to_obj(a), to_obj(b)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = tm.ite(go[i[:go.ndim]], a[i], b[i])
    return out


@handler("scan")
def _scan(ctx, eqn, *xs):
    p = eqn.params
    length = p["length"]
    if "ft_in" in p:
        sel = [list(g) for g in p["ft_in"].update(list(range(len(xs)))).unpack()]
        consts, carry, seqs = ([xs[k] for k in g] for g in sel)
        osel = [list(g) for g in p["ft_out"].update(list(range(len(eqn.outvars)))).unpack()]
        if osel[0] + osel[1] != list(range(len(eqn.outvars))):
            raise Unsupported("scan with permuted outputs")
    else:
        nc, ncar = p["num_consts"], p["num_carry"]
        consts, carry, seqs = list(xs[:nc]), list(xs[nc:nc + ncar]), list(xs[nc + ncar:])
    ncar = len(carry)
    ys = []
    order = range(length - 1, -1, -1) if p["reverse"] else range(length)
    for k in order:
        sl = [s[k].copy() if isinstance(s[k], np.ndarray) else _scalar(s[k], s) for s in seqs]
        out = eval_closed(ctx, p["jaxpr"], consts + carry + sl)
        carry, y = out[:ncar], out[ncar:]
        ys.append(y)
    if p["reverse"]:
        ys.reverse()
    stacked = []
    for j, v in enumerate(eqn.outvars[ncar:]):
        if not ys:
            z = np.empty(v.aval.shape, dtype=object)
            stacked.append(z)
        else:
            stacked.append(np.stack(_same([y[j] for y in ys])))
    return list(carry) + stacked


@handler("io_callback", "debug_callback", "pure_callback", "debug_print")
def _cb(ctx, eqn, *xs):
    if eqn.outvars:
        raise Unsupported("callback with results")
    return []


@handler("opaque")
def _opaque(ctx, eqn, x):
    name, d = eqn.params["name"], eqn.params["deriv"]
    x = to_obj(x)
    out = np.empty(x.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        t = tm.app(name, tuple(x[i]), "R", d)
        out[i] = ctx.app_subst.get(t, t)
    return out


# ------------------------------------------------------------ randomness (contract stubs)
def _kmap(f, k):
    """apply f to a key term, pushing through ite"""
    if k.op == "ite":
        return tm.ite(k.args[0], _kmap(f, k.args[1]), _kmap(f, k.args[2]))
    return f(k)


def kname(k):
    if k.op == "var":
        return k.val
    if k.op == "split":
        return f"{kname(k.args[0])}.{k.val[0]}of{'x'.join(map(str, k.val[1]))}"
    if k.op == "fold":
        return f"{kname(k.args[0])}+{k.val}"
    raise Unsupported("key term " + k.op)


def _child(q, j, shape):
    """in JAX's partitionable mode the children of a key depend on their flat
    index only (and are the same as those of fold_in)"""
    if jax.config.jax_threefry_partitionable:
        return tm._mk("fold", (q,), int(j), "K")
    return tm._mk("split", (q,), (j, shape), "K")


@handler("random_split")
def _rsplit(ctx, eqn, k):
    shape = eqn.params["shape"]
    n = int(np.prod(shape))
    out = np.empty(k.shape + (n,), dtype=object)
    for i in np.ndindex(*k.shape):
        ctx.key_uses.append(("split", k[i], ctx.guard[-1]))
        for j in range(n):
            out[i + (j,)] = _kmap(lambda q: _child(q, j, tuple(shape)), k[i])
    return out.reshape(k.shape + tuple(shape))


@handler("random_seed")
def _rseed(ctx, eqn, s):
    if not isn(s):
        raise Unsupported("symbolic seed")
    out = np.empty(s.shape, dtype=object)
    for i in np.ndindex(*s.shape):
        d = np.asarray(jax.random.key_data(jax.random.key(int(s[i]))))
        out[i] = tm.var("key!" + "_".join(str(int(z)) for z in d), "K")
    return out


@handler("random_fold_in")
def _rfold(ctx, eqn, k, d):
    k2, d2 = np.broadcast_arrays(k, d)
    out = np.empty(k2.shape, dtype=object)
    for i in np.ndindex(*k2.shape):
        ctx.key_uses.append(("fold", k2[i], ctx.guard[-1]))
        dv = int(d2[i]) if isn(d) else str(d2[i])
        out[i] = _kmap(lambda q: tm._mk("fold", (q,), dv, "K"), k2[i])
    return out


@handler("random_unwrap")
def _runwrap(ctx, eqn, k):
    out = np.empty(k.shape + (2,), dtype=object)
    for i in np.ndindex(*k.shape):
        for j in range(2):
            out[i + (j,)] = tm._mk("app", (k[i],), (f"kw{j}", ()), "I")
    return out


@handler("random_wrap")
def _rwrap(ctx, eqn, w):
    out = np.empty(w.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        row = w[i]
        if isn(w):
            out[i] = tm.var("key!" + "_".join(str(int(z)) for z in row), "K")
        else:
            out[i] = _wrap(row[0], row[1])
    return out


def _wrap(a, b):
    if a.op == "app" and b.op == "app" and a.val[0] == "kw0" and b.val[0] == "kw1" and a.args[0] is b.args[0]:
        return a.args[0]
    if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
        return tm.ite(a.args[0], _wrap(a.args[1], b.args[1]), _wrap(a.args[2], b.args[2]))
    raise Unsupported("raw PRNG key arithmetic")


@handler("random_bits")
def _rbits(ctx, eqn, k):
    shape = eqn.params["shape"]
    out = np.empty(k.shape + tuple(shape), dtype=object)
    for i in np.ndindex(*k.shape):
        ctx.key_uses.append(("draw", k[i], ctx.guard[-1]))
        ctx.draws.append(dict(kind="bits", key=k[i], shape=tuple(shape), guard=ctx.guard[-1]))
        for j in np.ndindex(*shape):
            out[i + j] = _kmap(lambda q: tm._mk("app", (q,), (f"bits{eqn.params['bit_width']}_{shape}_{j}", ()), "I"), k[i])
    return out


def _rvar(ctx, name, sort, key, how, **kw):
    ctx.rand[name] = (key, how)
    return tm.var(name, sort, **kw)


def conc_key(k, env):
    """the concrete key denoted by a key term"""
    if k.op == "var":
        if k.val.startswith("key!"):
            return jax.random.wrap_key_data(np.array([int(z) for z in k.val[4:].split("_")], dtype=np.uint32))
        return jax.random.key(int(env[k.val]))
    if k.op == "split":
        j, shape = k.val
        return jax.random.split(conc_key(k.args[0], env), shape).reshape(-1)[j]
    if k.op == "fold":
        return jax.random.fold_in(conc_key(k.args[0], env), int(k.val))
    raise Unsupported("key term " + k.op)


def fill_random(ctx, env):
    """values of all drawn variables when the real generator is run"""
    env = dict(env)
    memo = {}

    def key(k):
        if k not in memo:
            memo[k] = conc_key(k, env)
        return memo[k]

    for name, (k, how) in ctx.rand.items():
        kind, per, j, dt = how[:4]
        if kind == "uniform":
            v = jax.random.uniform(key(k), per, dt)
        elif kind == "randint":
            v = jax.random.randint(key(k), per, how[4], how[5], dt)
        elif kind == "normal":
            v = jax.random.normal(key(k), per, dt)
        elif kind == "tnormal":
            continue
        env[name] = np.asarray(v)[j].item()
    for keys, vs in ctx.perm_cache.items():
        bits = []
        for t in keys:
            m = re.fullmatch(r"bits(\d+)_(\(.*\))_(\(.*\))", t.val[0])
            w, shape, j = int(m.group(1)), ast.literal_eval(m.group(2)), ast.literal_eval(m.group(3))
            bits.append(int(np.asarray(jax.random.bits(key(t.args[0]), shape, f"uint{w}"))[j]))
        order = np.argsort(np.array(bits, dtype=np.uint64), kind="stable")
        for v, o in zip(vs, order):
            env[v.val] = int(o)
    return env


def _draw_stub(kind):
    def f(ctx, eqn, k, *rest):
        oshape = eqn.outvars[0].aval.shape
        per = oshape[k.ndim:] if len(oshape) >= k.ndim and oshape[:k.ndim] == k.shape else None
        if per is None:
            raise Unsupported("batched random draw")
        out = np.empty(oshape, dtype=object)
        for i in np.ndindex(*k.shape):
            ctx.key_uses.append(("draw", k[i], ctx.guard[-1]))
            vals = np.empty(per, dtype=object)
            for j in np.ndindex(*per):
                tag = f"{per}_{j}_{eqn.outvars[0].aval.dtype}"
                if jax.config.jax_threefry_partitionable:
                    tag = f"{int(np.ravel_multi_index(j, per)) if per else 0}_{eqn.outvars[0].aval.dtype}"
                if kind == "uniform":
                    lo, hi = rest[0], rest[1]
                    l = to_obj(np.asarray(lo))
                    h = to_obj(np.asarray(hi))
                    l = l.reshape(-1)[0] if l.size == 1 else np.broadcast_to(l, oshape)[i + j]
                    h = h.reshape(-1)[0] if h.size == 1 else np.broadcast_to(h, oshape)[i + j]
                    u = _kmap(lambda q: _rvar(ctx, f"unif!{kname(q)}!{tag}", "R", q, ("uniform", per, j, eqn.outvars[0].aval.dtype), lo=0, hi=1, hi_strict=True), k[i])
                    vals[j] = tm.add(l, tm.mul(u, tm.sub(h, l)))
                elif kind == "randint":
                    lo, hi = rest[0], rest[1]
                    if not (isn(lo) and isn(hi)):
                        raise Unsupported("randint with symbolic range")
                    l, h = int(np.min(lo)), int(np.max(hi))
                    vals[j] = _kmap(lambda q: _rvar(ctx, f"rint!{kname(q)}!{l}_{h}_{tag}", "I", q, ("randint", per, j, eqn.outvars[0].aval.dtype, l, h), lo=l, hi=h - 1), k[i])
                else:
                    vals[j] = _kmap(lambda q: _rvar(ctx, f"{kind}!{kname(q)}!{tag}", "R", q, (kind, per, j, eqn.outvars[0].aval.dtype)), k[i])
                out[i + j] = vals[j]
            ctx.draws.append(dict(kind=kind, key=k[i], shape=tuple(per), guard=ctx.guard[-1], vals=vals))
        return [out]

    return f


RANDOM_STUBS["_uniform"] = _draw_stub("uniform")
RANDOM_STUBS["_randint"] = _draw_stub("randint")
RANDOM_STUBS["_normal"] = _draw_stub("normal")
RANDOM_STUBS["_truncated_normal"] = _draw_stub("tnormal")
