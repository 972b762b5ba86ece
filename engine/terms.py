"""Hash-consed symbolic terms: the value domain of the symbolic executor.

Sorts: 'R' (real), 'I' (integer), 'B' (boolean), 'K' (PRNG key).
Floats of the traced program are interpreted as exact reals.
"""
from __future__ import annotations
from fractions import Fraction
import math
import sys
import numpy as np

sys.setrecursionlimit(200000)

_table: dict = {}


class T:
    __slots__ = ("op", "args", "val", "sort", "id", "__weakref__")

    def __repr__(self):
        return to_str(self)

    # arithmetic sugar (used by the property statements)
    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return add(self, lift(o))

    def __radd__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return add(lift(o), self)

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return add(self, neg(lift(o)))

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return add(lift(o), neg(self))

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mul(self, lift(o))

    def __rmul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mul(lift(o), self)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return div(self, lift(o))

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return div(lift(o), self)

    def __neg__(self):
        return neg(self)

    def __pow__(self, n):
        return ipow(self, n) if isinstance(n, int) else rpow(self, Fraction(n))

    def __lt__(self, o):
        return lt(self, lift(o))

    def __le__(self, o):
        return le(self, lift(o))

    def __gt__(self, o):
        return lt(lift(o), self)

    def __ge__(self, o):
        return le(lift(o), self)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return self.id

    def __bool__(self):
        if self.op == "b":
            return self.val
        raise TypeError("symbolic term used as a Python boolean: " + to_str(self)[:200])


def _mk(op, args, val, sort):
    key = (op, tuple(a.id for a in args), val, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.val, t.sort = op, tuple(args), val, sort
        t.id = len(_table)
        _table[key] = t
    return t


# ---------------------------------------------------------------- constants
def const(v):
    return _mk("c", (), Fraction(v), "R")


def iconst(v):
    return _mk("c", (), Fraction(int(v)), "I")


def boolc(v):
    return _mk("b", (), bool(v), "B")


TRUE, FALSE = boolc(True), boolc(False)
ZERO, ONE = const(0), const(1)
PI = _mk("pi", (), None, "R")
INF = _mk("inf", (), 1, "R")
NINF = _mk("inf", (), -1, "R")
NAN = _mk("nan", (), None, "R")

_var_info: dict = {}  # name -> dict(lo=, hi=, lo_strict, hi_strict)


def var(name, sort="R", lo=None, hi=None, lo_strict=False, hi_strict=False):
    t = _mk("var", (), name, sort)
    info = dict(lo=lo, hi=hi, lo_strict=lo_strict, hi_strict=hi_strict)
    if _var_info.get(name, info) != info:
        _cases.clear()   # derived from the bounds of variables
    _var_info[name] = info
    return t


def var_bounds(t):
    """Bound assertions of one variable."""
    i = _var_info.get(t.val, {})
    out = []
    cc = iconst if t.sort == "I" else const
    if i.get("lo") is not None:
        out.append(lt(cc(i["lo"]), t) if i["lo_strict"] else le(cc(i["lo"]), t))
    if i.get("hi") is not None:
        out.append(lt(t, cc(i["hi"])) if i["hi_strict"] else le(t, cc(i["hi"])))
    return out


def var_bounds_raw(t):
    """Bounds of a variable as (variable, smt operator, constant)."""
    i = _var_info.get(t.val, {})
    cc = iconst if t.sort == "I" else const
    out = []
    if i.get("lo") is not None:
        out.append((t, ">" if i["lo_strict"] else ">=", cc(i["lo"])))
    if i.get("hi") is not None:
        out.append((t, "<" if i["hi_strict"] else "<=", cc(i["hi"])))
    return out


_SMALL = 4000


def recognise(v: float):
    """A float constant of the program, read as the real number it stands for:
    a short decimal, a small rational, a small rational multiple of pi, else
    exactly the float."""
    if math.isnan(v):
        return NAN
    if math.isinf(v):
        return INF if v > 0 else NINF
    f = Fraction(v)
    if f.denominator <= 1 << 20:
        return const(f)
    r = repr(float(v))
    digits = r.replace("-", "").replace(".", "").split("e")[0].strip("0")
    if len(digits) <= 8:
        return const(Fraction(r))
    g = f.limit_denominator(_SMALL)
    if abs(f - g) <= Fraction(4, 10**16) * max(abs(f), Fraction(1, 10**3)):
        return const(g)
    q = Fraction(v / math.pi).limit_denominator(360)
    if q != 0 and abs(float(q) * math.pi - v) <= 6e-16 * abs(v):
        return mul(const(q), PI)
    q = Fraction(v * math.pi).limit_denominator(360)
    if q != 0 and abs(float(q) / math.pi - v) <= 6e-16 * abs(v):
        return div(const(q), PI)
    return const(f)


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return boolc(x)
    if isinstance(x, int):
        return const(x)
    if isinstance(x, Fraction):
        return const(x)
    if isinstance(x, float):
        return recognise(x)
    import numpy as np

    if isinstance(x, np.bool_):
        return boolc(bool(x))
    if isinstance(x, np.integer):
        return const(int(x))
    if isinstance(x, np.floating):
        return recognise(float(x))
    if isinstance(x, np.ndarray) and x.shape == ():
        return lift(x[()])
    raise TypeError(f"cannot lift {type(x)}")


def is_c(t):
    return t.op == "c"


def _c(v, sort):
    return const(v) if sort == "R" else iconst(v)


def _is_tree(t):
    """integer ite tree with constant leaves"""
    return t.sort == "I" and t.op == "ite"


# ---------------------------------------------------------------- arithmetic
def _num_sort(ts):
    return "R" if any(t.sort == "R" for t in ts) else "I"


def toreal(t):
    if t.sort == "R":
        return t
    if t.sort == "B":
        return ite(t, ONE, ZERO)
    if t.op == "c":
        return const(t.val)
    if t.op == "ite":
        return ite(t.args[0], toreal(t.args[1]), toreal(t.args[2]))
    if t.op == "add":
        return add(*[toreal(a) for a in t.args])
    if t.op == "mul":
        return mul(*[toreal(a) for a in t.args])
    return _mk("toreal", (t,), None, "R")


def _coef(t):
    """t == coef * base"""
    if t.op == "c":
        return t.val, None
    if t.op == "mul" and t.args[0].op == "c":
        rest = t.args[1:]
        base = rest[0] if len(rest) == 1 else _mk("mul", rest, None, t.sort)
        return t.args[0].val, base
    return Fraction(1), t


def add(*ts):
    sort = _num_sort(ts)
    if sort == "R":
        ts = [toreal(t) for t in ts]
    if sort == "I" and any(_is_tree(t) for t in ts) and all(t.op in ("c", "ite") for t in ts):
        return _push(add, ts)
    acc: dict = {}
    c = Fraction(0)
    infs = 0
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if t.op == "add":
            stack.extend(reversed(t.args))
            continue
        if t.op == "inf":
            infs += t.val
            continue
        if t.op == "nan":
            return NAN
        k, b = _coef(t)
        if b is None:
            c += k
        else:
            acc[b] = acc.get(b, 0) + k
    if infs:
        return INF if infs > 0 else NINF
    out = []
    for b in sorted(acc, key=lambda b: b.id):
        k = acc[b]
        if k != 0:
            out.append(_scale(k, b))
    if c != 0 or not out:
        out.append(_c(c, sort))
    if len(out) == 1:
        return out[0]
    return _mk("add", out, None, sort)


def _scale(k, b):
    if k == 1:
        return b
    if b.op == "mul":
        return _mk("mul", (_c(k, b.sort),) + b.args, None, b.sort)
    return _mk("mul", (_c(k, b.sort), b), None, b.sort)


def neg(t):
    return mul(_c(-1, t.sort if t.sort != "B" else "R"), t)


def sub(a, b):
    return add(a, neg(b))


def mul(*ts):
    sort = _num_sort(ts)
    if sort == "R":
        ts = [toreal(t) for t in ts]
    if sort == "I" and any(_is_tree(t) for t in ts) and all(t.op in ("c", "ite") for t in ts):
        return _push(mul, ts)
    c = Fraction(1)
    pw: dict = {}
    infs = None
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if t.op == "mul":
            stack.extend(reversed(t.args))
        elif t.op == "c":
            c *= t.val
        elif t.op == "inf":
            infs = (infs or 1) * t.val
        elif t.op == "nan":
            return NAN
        elif t.op == "pow":
            pw[t.args[0]] = pw.get(t.args[0], 0) + t.val
        else:
            pw[t] = pw.get(t, 0) + 1
    if infs is not None:
        if c == 0 or pw:
            return NAN
        return INF if infs * c > 0 else NINF
    if c == 0:
        return _c(0, sort)
    fs = []
    for b in sorted(pw, key=lambda b: b.id):
        fs.append(b if pw[b] == 1 else _mk("pow", (b,), pw[b], b.sort))
    if not fs:
        return _c(c, sort)
    if len(fs) == 1 and fs[0].op == "add" and c != 1:
        return add(*[mul(_c(c, sort), a) for a in fs[0].args])
    if c != 1:
        fs = [_c(c, sort)] + fs
    if len(fs) == 1:
        return fs[0]
    return _mk("mul", fs, None, sort)


def ipow(b, n):
    if n == 0:
        return _c(1, b.sort)
    if n < 0:
        return div(ONE, ipow(b, -n))
    return mul(*([b] * n))


def div(a, b):
    a, b = toreal(a), toreal(b)
    if b.op == "c" and b.val != 0:
        return mul(const(1 / b.val), a)
    if b.op == "inf":
        return ZERO
    if a.op == "nan" or b.op == "nan":
        return NAN
    if b.op == "c" and b.val == 0:
        if a.op == "c" and a.val != 0:
            return INF if a.val > 0 else NINF
        return NAN
    if b.op == "mul" and b.args[0].op == "c":
        k, base = _coef(b)
        return mul(const(1 / k), div(a, base))
    ka, base = _coef(a)
    if base is not None and ka != 1 and base.op != "inf":
        return mul(const(ka), div(base, b))
    return _mk("div", (a, b), None, "R")


def root(u, n):
    """n-th root, n even or odd, u >= 0 required for even n."""
    u = toreal(u)
    if n == 1:
        return u
    if u.op == "c" and u.val >= 0:
        p, q = _iroot(u.val.numerator, n), _iroot(u.val.denominator, n)
        if p is not None and q is not None:
            return const(Fraction(p, q))
    if u.op == "inf" and u.val > 0:
        return INF
    if n % 2 == 0:
        # root of a perfect power
        k, b = _coef(u)
        if b is not None and k > 0:
            fs = b.args if b.op == "mul" else (b,)
            rk = root(const(k), n) if k != 1 else ONE
            if rk.op == "c" and all(f.op == "pow" and f.val % n == 0 for f in fs):
                return mul(rk, *[ipow(abs_(f.args[0]), f.val // n) for f in fs])
    if n == 2 and u.op == "add" and len(u.args) == 3:
        # (s1 + s2)^2 or (s1 - s2)^2, multiplied out
        for i in range(3):
            s1, s2 = (_sqroot(a) for j, a in enumerate(u.args) if j != i)
            if s1 is None or s2 is None:
                continue
            k1, f1 = _primitive(mul(const(2), s1, s2))
            k2, f2 = _primitive(u.args[i])
            if f1 == f2 and k1 == k2:
                return abs_(add(s1, s2))
            if f1 == f2 and k1 == -k2:
                return abs_(sub(s1, s2))
    return _mk("root", (u,), n, "R")


def _primitive(t):
    """scalar and multiset of factors with leading coefficient one"""
    k, b = _coef(t)
    if b is None:
        return k, ()
    fs = []
    for f in (b.args if b.op == "mul" else (b,)):
        e = 1
        if f.op == "pow":
            f, e = f.args[0], f.val
        if f.op == "add":
            c = next((_coef(a)[0] for a in f.args if a.op != "c"), Fraction(1))
            f = mul(const(1 / c), f)
            k *= c ** e
        fs += [f.id] * e
    return k, tuple(sorted(fs))


def _sqroot(a):
    """s with s*s == a, read off syntactically"""
    if a.op == "c":
        r = root(a, 2) if a.val >= 0 else None
        return r if r is not None and r.op == "c" else None
    k, b = _coef(a)
    if b is None or k <= 0:
        return None
    rk = root(const(k), 2) if k != 1 else ONE
    fs = b.args if b.op == "mul" else (b,)
    if rk.op != "c" or not all(f.op == "pow" and f.val % 2 == 0 for f in fs):
        return None
    return mul(rk, *[ipow(f.args[0], f.val // 2) for f in fs])


def sqrt(u):
    return root(lift(u), 2)


def _iroot(a, n):
    r = round(a ** (1.0 / n)) if a < 10**15 else None
    if r is None:
        lo, hi = 0, 1 << (a.bit_length() // n + 2)
        while lo < hi:
            m = (lo + hi) // 2
            if m**n < a:
                lo = m + 1
            else:
                hi = m
        r = lo
    for k in (r - 1, r, r + 1):
        if k >= 0 and k**n == a:
            return k
    return None


def rpow(b, e: Fraction):
    """b ** e for a rational constant e (b >= 0 unless e is an integer)."""
    e = Fraction(e)
    if e.denominator == 1:
        return ipow(b, int(e))
    r = root(b, e.denominator)
    return ipow(r, e.numerator)


def power(b, e):
    b, e = toreal(b), toreal(e)
    if e.op == "c":
        return rpow(b, e.val)
    if b is ONE:
        return ONE
    return app("pow", (b, e))


def app(name, args, sort="R", deriv=()):
    args = tuple(toreal(lift(a)) if not (isinstance(a, T) and a.sort in "KI") else a for a in args)
    return _mk("app", args, (name, tuple(deriv)), sort)


_FOLD = {"sin": (0, 0), "cos": (0, 1), "exp": (0, 1), "log": (1, 0), "tanh": (0, 0), "tan": (0, 0),
         "asin": (0, 0), "acos": (1, 0), "atan": (0, 0), "sinh": (0, 0), "cosh": (0, 1), "erf": (0, 0),
         "log1p": (0, 0), "expm1": (0, 0), "logistic": (0, Fraction(1, 2))}


def fn(name, x):
    """Unary transcendental function."""
    x = toreal(lift(x))
    if x.op == "c" and name in _FOLD and x.val == _FOLD[name][0]:
        return const(_FOLD[name][1])
    if name in ("sin", "cos"):
        k, b = _coef(x)
        if b is PI:  # rational multiple of pi with a rational value
            q = k % 2
            tab = {Fraction(0): (0, 1), Fraction(1, 2): (1, 0), Fraction(1): (0, -1), Fraction(3, 2): (-1, 0)}
            if q in tab:
                return const(tab[q][0 if name == "sin" else 1])
            h = Fraction(1, 2)
            s3 = mul(const(h), root(const(3), 2))
            s2 = mul(const(h), root(const(2), 2))
            t6 = {1: (const(h), s3), 2: (s3, const(h)), 4: (s3, const(-h)), 5: (const(h), neg(s3)),
                  7: (const(-h), neg(s3)), 8: (neg(s3), const(-h)), 10: (neg(s3), const(h)), 11: (const(-h), s3)}
            t4 = {1: (s2, s2), 3: (s2, neg(s2)), 5: (neg(s2), neg(s2)), 7: (neg(s2), s2)}
            if (q * 6).denominator == 1:
                return t6[int(q * 6)][0 if name == "sin" else 1]
            if (q * 4).denominator == 1:
                return t4[int(q * 4)][0 if name == "sin" else 1]
        if k < 0 and b is not None:
            r = fn(name, neg(x))
            return neg(r) if name == "sin" else r
    if name == "cos" and x.op == "fn" and x.val == "acos":
        return x.args[0]
    if name == "sin" and x.op == "fn" and x.val == "asin":
        return x.args[0]
    if name == "log" and x.op == "fn" and x.val == "exp":
        return x.args[0]
    if name == "exp" and x.op == "fn" and x.val == "log":
        return x.args[0]
    if x.op == "inf":
        if name == "exp":
            return INF if x.val > 0 else ZERO
        if name == "tanh":
            return const(x.val)
    return _mk("fn", (x,), name, "R")


def floor(x):
    x = lift(x)
    if x.sort == "I":
        return x
    if x.op == "c":
        return iconst(math.floor(x.val))
    # pull out integer-valued summands
    ints, rest = [], []
    for a in x.args if x.op == "add" else (x,):
        iv = _as_int(a)
        (ints if iv is not None else rest).append(iv if iv is not None else a)
    if not rest:
        return add(*ints)
    r = add(*rest)
    if ints:
        return add(*ints, floor(r))
    lo, ls, hi, hs = interval(r)
    if lo is not None and hi is not None:
        k = math.floor(lo)
        if lo >= k and (hi < k + 1 or (hi == k + 1 and hs)):
            return iconst(k)
    return _mk("floor", (r,), None, "I")


def _as_int(t):
    if t.op == "toreal":
        return t.args[0]
    if t.op == "c" and t.val.denominator == 1:
        return iconst(t.val)
    if t.op == "mul" and t.args[0].op == "c" and t.args[0].val.denominator == 1:
        r = [_as_int(a) for a in t.args[1:]]
        if all(x is not None for x in r):
            return mul(iconst(t.args[0].val), *r)
    return None


def interval(t):
    """(lo, lo_strict, hi, hi_strict) from variable bounds; None = unbounded."""
    N = (None, False, None, False)
    if t.op == "c":
        return (t.val, False, t.val, False)
    if t.op == "var":
        i = _var_info.get(t.val)
        if not i:
            return N
        f = lambda z: None if z is None else Fraction(z)
        return (f(i["lo"]), i["lo_strict"], f(i["hi"]), i["hi_strict"])
    if t.op == "toreal":
        return interval(t.args[0])
    if t.op == "add":
        lo, ls, hi, hs = Fraction(0), False, Fraction(0), False
        for a in t.args:
            l, s, h, z = interval(a)
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
            ls, hs = ls or s, hs or z
        return (lo, ls, hi, hs)
    if t.op == "mul" and t.args[0].op == "c" and len(t.args) == 2:
        k = t.args[0].val
        l, s, h, z = interval(t.args[1])
        l = None if l is None else k * l
        h = None if h is None else k * h
        return (l, s, h, z) if k > 0 else (h, z, l, s)
    return N


# ---------------------------------------------------------------- booleans
def not_(a):
    if a.op == "b":
        return boolc(not a.val)
    if a.op == "not":
        return a.args[0]
    if a.op == "lt" and a.args[0].sort in "RI":
        return _mk("le", (a.args[1], a.args[0]), None, "B")
    if a.op == "le":
        return _mk("lt", (a.args[1], a.args[0]), None, "B")
    return _mk("not", (a,), None, "B")


def and_(*ts):
    out = {}
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if t.op == "b":
            if not t.val:
                return FALSE
        elif t.op == "and":
            stack.extend(reversed(t.args))
        else:
            out[t] = 1
    for t in out:
        if not_(t) in out:
            return FALSE
    out = list(out)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk("and", out, None, "B")


def or_(*ts):
    out = {}
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if t.op == "b":
            if t.val:
                return TRUE
        elif t.op == "or":
            stack.extend(reversed(t.args))
        else:
            out[t] = 1
    for t in out:
        if not_(t) in out:
            return TRUE
    out = list(out)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk("or", out, None, "B")


def implies(a, b):
    """Kept as its own node: the antecedent guards the definedness of b."""
    if a.op == "b":
        return b if a.val else TRUE
    if b.op == "b" and b.val:
        return TRUE
    return _mk("imp", (a, b), None, "B")


def iff(a, b):
    return eq(a, b)


def xor_(a, b):
    return not_(eq(a, b))


def _push(f, ts):
    """push an operation through integer ite trees with constant leaves"""
    for k, t in enumerate(ts):
        if _is_tree(t):
            c, x, y = t.args
            l = list(ts)
            l[k] = x
            r = list(ts)
            r[k] = y
            return ite(c, f(*l), f(*r))
    return f(*ts)


def _cmp(op, a, b):
    if a.sort == "I" and b.sort == "I":
        if (_is_tree(a) or _is_tree(b)) and a.op in ("c", "ite") and b.op in ("c", "ite"):
            return _push(lt if op == "lt" else le, [a, b])
    elif a.sort != b.sort:
        a, b = toreal(a), toreal(b)
    if a.op == "nan" or b.op == "nan":
        return FALSE
    if a.op == "inf" or b.op == "inf":
        if a.op == "inf" and b.op == "inf":
            return boolc(a.val < b.val if op == "lt" else a.val <= b.val)
        if a.op == "inf":
            return boolc(a.val < 0)
        return boolc(b.val > 0)
    d = sub(a, b)
    if d.op == "c":
        return boolc(d.val < 0 if op == "lt" else d.val <= 0)
    if a.sort == "R" and a.op != "ite" and b.op != "ite":
        lo, ls, hi, hs = interval(d)
        if op == "lt":
            if hi is not None and (hi < 0 or (hi == 0 and hs)):
                return TRUE
            if lo is not None and lo >= 0:
                return FALSE
        else:
            if hi is not None and hi <= 0:
                return TRUE
            if lo is not None and (lo > 0 or (lo == 0 and ls)):
                return FALSE
    return _mk(op, (a, b), None, "B")


def _lift_inf(op, a, b):
    """comparisons where a side is an ite with infinite leaves"""
    for k, t in enumerate((a, b)):
        if t.op == "ite" and _has_inf(t):
            c, x, y = t.args
            o = b if k == 0 else a
            f = (lambda z: op(z, o)) if k == 0 else (lambda z: op(o, z))
            return ite(c, f(x), f(y))
    return None


_hasinf: dict = {}


def _has_inf(t):
    r = _hasinf.get(t)
    if r is None:
        r = t.op in ("inf", "nan") or (t.op == "ite" and (_has_inf(t.args[1]) or _has_inf(t.args[2])))
        _hasinf[t] = r
    return r


def lt(a, b):
    r = _lift_inf(lt, a, b)
    return r if r is not None else _cmp("lt", a, b)


def le(a, b):
    r = _lift_inf(le, a, b)
    return r if r is not None else _cmp("le", a, b)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if a is b:
        return FALSE if a.op == "nan" else TRUE
    if a.sort == "B":
        if a.op == "b":
            return b if a.val else not_(b)
        if b.op == "b":
            return a if b.val else not_(a)
        if not_(a) is b:
            return FALSE
        if a.id > b.id:
            a, b = b, a
        return _mk("eq", (a, b), None, "B")
    if a.sort == "K" or b.sort == "K":
        if a.id > b.id:
            a, b = b, a
        return _mk("eq", (a, b), None, "B")
    if a.sort == "I" and b.sort == "I":
        if (_is_tree(a) or _is_tree(b)) and a.op in ("c", "ite") and b.op in ("c", "ite"):
            return _push(eq, [a, b])
    elif a.sort != b.sort:
        a, b = toreal(a), toreal(b)
    r = _lift_inf(eq, a, b)
    if r is not None:
        return r
    if a.op == "nan" or b.op == "nan" or a.op == "inf" or b.op == "inf":
        return FALSE
    d = sub(a, b)
    if d.op == "c":
        return boolc(d.val == 0)
    if d.sort == "R":
        lo, ls, hi, hs = interval(d)
        if (lo is not None and (lo > 0 or (lo == 0 and ls))) or (hi is not None and (hi < 0 or (hi == 0 and hs))):
            return FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk("eq", (a, b), None, "B")


def ne(a, b):
    return not_(eq(a, b))


def ite(c, a, b):
    if c.op == "b":
        return a if c.val else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.sort == "B":
        if a.op == "b":
            return or_(c, b) if a.val else and_(not_(c), b)
        if b.op == "b":
            return or_(not_(c), a) if b.val else and_(c, a)
    elif a.sort != b.sort and a.sort in "RI" and b.sort in "RI":
        a, b = toreal(a), toreal(b)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk("ite", (c, a, b), None, a.sort)


def max_(a, b):
    a, b = lift(a), lift(b)
    return ite(le(b, a), a, b)


def min_(a, b):
    a, b = lift(a), lift(b)
    return ite(le(a, b), a, b)


def abs_(a):
    a = lift(a)
    return ite(le(_c(0, a.sort), a), a, neg(a))


def cases(t):
    """An integer term with finitely many values: list of (value, guard)."""
    if t.op == "c":
        return {int(t.val): TRUE}
    if t.op == "var":
        i = _var_info[t.val]
        if i["lo"] is None or i["hi"] is None:
            raise Unsupported("unbounded symbolic index " + t.val)
        return {v: eq(t, iconst(v)) for v in range(int(i["lo"]), int(i["hi"]) + 1)}
    if t.op == "ite":
        c = t.args[0]
        a, b = cases_memo(t.args[1]), cases_memo(t.args[2])
        out = {}
        for v in set(a) | set(b):
            out[v] = or_(and_(c, a.get(v, FALSE)), and_(not_(c), b.get(v, FALSE)))
        return out
    if t.op in ("add", "mul"):
        acc = {0 if t.op == "add" else 1: TRUE}
        for a in t.args:
            nxt = {}
            for v, g in acc.items():
                for w, h in cases_memo(a).items():
                    z = v + w if t.op == "add" else v * w
                    nxt[z] = or_(nxt.get(z, FALSE), and_(g, h))
            acc = nxt
            if len(acc) > 400:
                raise Unsupported("too many index cases")
        return acc
    if t.op == "floor":
        lo, ls, hi, hs = interval(t.args[0])
        if lo is not None and hi is not None and hi - lo < 50:
            return {v: eq(t, iconst(v)) for v in range(math.floor(lo), math.floor(hi) + 1)}
    raise Unsupported("symbolic index " + to_str(t)[:100])


_cases: dict = {}


def cases_memo(t):
    r = _cases.get(t)
    if r is None:
        r = {v: g for v, g in cases(t).items() if g is not FALSE}
        _cases[t] = r
    return r


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- utilities
def subterms(ts):
    """post-order, each once"""
    seen = set()
    out = []
    stack = [(t, False) for t in reversed(list(ts))]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for a in t.args:
            if a.id not in seen:
                stack.append((a, False))
    return out


def rebuild(t, args):
    op = t.op
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "pow":
        return ipow(args[0], t.val)
    if op == "div":
        return div(*args)
    if op == "root":
        return root(args[0], t.val)
    if op == "fn":
        return fn(t.val, args[0])
    if op == "floor":
        return floor(args[0])
    if op == "toreal":
        return toreal(args[0])
    if op == "ite":
        return ite(*args)
    if op == "lt":
        return lt(*args)
    if op == "le":
        return le(*args)
    if op == "eq":
        return eq(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "not":
        return not_(args[0])
    if op == "imp":
        return implies(*args)
    if op == "app" or op == "split" or op == "fold":
        return _mk(op, args, t.val, t.sort)
    raise AssertionError(op)


def subst(ts, mp):
    """Simultaneous replacement of whole subterms (mp: T -> T)."""
    res = {}
    for t in subterms(ts):
        if t in mp:
            res[t] = mp[t]
        elif not t.args:
            res[t] = t
        else:
            na = [res[a] for a in t.args]
            res[t] = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t, na)
    return [res[t] for t in ts]


def defined(t, memo=None):
    """The condition under which t has a (real) value."""
    memo = {} if memo is None else memo
    for s in subterms([t]):
        if s in memo:
            continue
        d = [memo[a] for a in s.args]
        if s.op == "ite":
            r = and_(d[0], ite(s.args[0], d[1], d[2]))
        elif s.op == "imp":
            r = and_(d[0], implies(s.args[0], d[1]))
        elif s.op == "and":
            r = TRUE
            pre = TRUE
            for a, da in zip(s.args, d):
                r = and_(r, implies(pre, da))
                pre = and_(pre, a)
        elif s.op == "or":
            r = TRUE
            pre = TRUE
            for a, da in zip(s.args, d):
                r = and_(r, implies(pre, da))
                pre = and_(pre, not_(a))
        elif s.op == "nan" or s.op == "inf":
            r = FALSE
        else:
            r = and_(*d)
            if s.op == "div":
                r = and_(r, ne(s.args[1], ZERO))
            elif s.op == "root" and s.val % 2 == 0:
                r = and_(r, le(ZERO, s.args[0]))
            elif s.op == "fn" and s.val == "log":
                r = and_(r, lt(ZERO, s.args[0]))
            elif s.op == "fn" and s.val in ("acos", "asin"):
                r = and_(r, le(const(-1), s.args[0]), le(s.args[0], ONE))
        memo[s] = r
    return memo[t]


def to_str(t, depth=6):
    if t.op == "c":
        return str(t.val)
    if t.op == "b":
        return str(t.val)
    if t.op == "var":
        return t.val
    if t.op == "pi":
        return "pi"
    if t.op in ("inf", "nan"):
        return t.op
    if depth == 0:
        return "..."
    s = ", ".join(to_str(a, depth - 1) for a in t.args)
    h = t.op if t.val is None else f"{t.op}[{t.val}]"
    return f"{h}({s})"


# ---------------------------------------------------------------- numeric evaluation
_MATH = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "exp": math.exp, "log": math.log, "tanh": math.tanh,
         "asin": math.asin, "acos": math.acos, "atan": math.atan, "sinh": math.sinh, "cosh": math.cosh,
         "erf": math.erf, "log1p": math.log1p, "expm1": math.expm1,
         "logistic": lambda x: 1 / (1 + math.exp(-x))}


def neval(ts, env, funs=None, keys=None, fixed=None):
    """Evaluate terms over floats. env: var name -> float/int/bool.
    Returns a list; undefined values are nan. Booleans of comparisons are
    exact on floats here (tolerant evaluation: see harness.tri)."""
    val = {}
    fixed = fixed or {}
    for t in subterms(ts):
        val[t] = fixed[t] if t in fixed else _neval1(t, [val[a] for a in t.args], env, funs, keys)
    return [val[t] for t in ts]


def _neval1(t, a, env, funs, keys=None):
    op = t.op
    nan = float("nan")
    try:
        if op == "c":
            return float(t.val) if t.sort == "R" else int(t.val)
        if op == "b":
            return t.val
        if op == "var":
            return env[t.val]
        if op == "pi":
            return math.pi
        if op == "inf":
            return math.inf * t.val
        if op == "nan":
            return nan
        if op == "add":
            return sum(a[1:], a[0])
        if op == "mul":
            r = a[0]
            for x in a[1:]:
                r = r * x
            return r
        if op == "pow":
            return a[0] ** t.val
        if op == "div":
            if a[1] == 0:
                return nan if a[0] == 0 or math.isnan(a[0]) else math.copysign(math.inf, a[0])
            return a[0] / a[1]
        if op == "root":
            if math.isnan(a[0]):
                return nan
            if a[0] < 0:
                return nan if t.val % 2 == 0 else -((-a[0]) ** (1.0 / t.val))
            return math.sqrt(a[0]) if t.val == 2 else a[0] ** (1.0 / t.val)
        if op == "fn":
            return _MATH[t.val](a[0])
        if op == "floor":
            return math.floor(a[0])
        if op == "toreal":
            return float(a[0])
        if op == "ite":
            return a[1] if a[0] else a[2]
        if op == "lt":
            return a[0] < a[1]
        if op == "le":
            return a[0] <= a[1]
        if op == "eq":
            return a[0] == a[1]
        if op == "and":
            return all(a)
        if op == "or":
            return any(a)
        if op == "not":
            return not a[0]
        if op == "imp":
            return (not a[0]) or a[1]
        if op == "app":
            name, d = t.val
            if name == "pow":
                return a[0] ** a[1]
            return funs[name](d, a)
        if op in ("split", "fold"):
            return (op, t.val) + tuple(a)
    except (ValueError, OverflowError, ZeroDivisionError):
        return nan
    raise AssertionError(op)
