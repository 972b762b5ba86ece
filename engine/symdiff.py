"""Derivatives of terms: the oracle for derivatives the real code computes."""
from fractions import Fraction
from . import terms as tm


def _fn(name, x, t):
    F = tm.fn
    sq = tm.mul(x, x)
    tab = dict(sin=lambda: F("cos", x), cos=lambda: tm.neg(F("sin", x)), exp=lambda: t, log=lambda: tm.div(tm.ONE, x),
               tanh=lambda: tm.sub(tm.ONE, tm.mul(t, t)), tan=lambda: tm.add(tm.ONE, tm.mul(t, t)),
               asin=lambda: tm.div(tm.ONE, tm.sqrt(tm.sub(tm.ONE, sq))), acos=lambda: tm.div(tm.const(-1), tm.sqrt(tm.sub(tm.ONE, sq))),
               atan=lambda: tm.div(tm.ONE, tm.add(tm.ONE, sq)), sinh=lambda: F("cosh", x), cosh=lambda: F("sinh", x),
               log1p=lambda: tm.div(tm.ONE, tm.add(tm.ONE, x)), expm1=lambda: tm.add(t, tm.ONE), logistic=lambda: tm.mul(t, tm.sub(tm.ONE, t)))
    if name not in tab:
        raise NotImplementedError(f"derivative of {name}")
    return tab[name]()


def diff(t, x, memo=None):
    """d t / d x, branch by branch"""
    memo = {} if memo is None else memo
    stack = [t]
    while stack:
        u = stack[-1]
        if u in memo:
            stack.pop()
            continue
        kids = [a for a in u.args if a.sort == "R"] if u.op != "floor" else []
        todo = [a for a in kids if a not in memo]
        if todo:
            stack += todo
            continue
        stack.pop()
        d = lambda a: memo.get(a, tm.ZERO)
        if u is x:
            r = tm.ONE
        elif u.op in ("c", "pi", "var", "floor", "toreal", "b"):
            r = tm.ZERO
        elif u.op == "add":
            r = tm.add(tm.ZERO, *[d(a) for a in u.args])
        elif u.op == "mul":
            r = tm.add(tm.ZERO, *[tm.mul(d(a), *[b for j, b in enumerate(u.args) if j != k]) for k, a in enumerate(u.args) if d(a) is not tm.ZERO])
        elif u.op == "pow":
            b = u.args[0]
            r = tm.mul(tm.const(u.val), tm.ipow(b, u.val - 1), d(b))
        elif u.op == "div":
            a, b = u.args
            r = tm.div(d(a), b) if d(b) is tm.ZERO else tm.div(tm.sub(tm.mul(d(a), b), tm.mul(a, d(b))), tm.mul(b, b))
        elif u.op == "root":
            b, n = u.args[0], u.val
            r = tm.ZERO if d(b) is tm.ZERO else tm.div(d(b), tm.mul(tm.const(n), tm.ipow(u, n - 1)))
        elif u.op == "fn":
            a = u.args[0]
            r = tm.ZERO if d(a) is tm.ZERO else tm.mul(_fn(u.val, a, u), d(a))
        elif u.op == "ite":
            r = tm.ite(u.args[0], d(u.args[1]), d(u.args[2]))
        elif u.op == "app" and u.val[0] == "pow":
            a, e = u.args
            r = tm.add(tm.mul(e, tm.app("pow", (a, tm.sub(e, tm.ONE))), d(a)), tm.mul(tm.fn("log", a), u, d(e)) if d(e) is not tm.ZERO else tm.ZERO)
        elif u.op == "app":
            name, dv = u.val
            r = tm.add(tm.ZERO, *[tm.mul(tm.app(name, u.args, u.sort, tuple(sorted(dv + (k,)))), d(a)) for k, a in enumerate(u.args) if d(a) is not tm.ZERO])
        else:
            raise NotImplementedError(u.op)
        memo[u] = r
    return memo[t]


def kinks(ts):
    """conditions under which every branch and root of the terms is taken away from its border"""
    out, seen, stack = {}, set(), list(ts)
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        stack += list(u.args)
        if u.op in ("lt", "le", "eq") and all(a.sort in "RI" for a in u.args):
            out[tm.not_(tm.eq(*u.args))] = None
        elif u.op == "root":
            out[tm.not_(tm.eq(u.args[0], tm.ZERO))] = None
        elif u.op == "div":
            out[tm.not_(tm.eq(u.args[1], tm.ZERO))] = None
        elif u.op == "floor":
            out[tm.not_(tm.eq(tm.toreal(u), u.args[0]))] = None
    return [c for c in out if c is not tm.TRUE]
