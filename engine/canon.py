"""Normal form of ite-free real terms: quotients of polynomials over atoms,
reduced modulo the defining relations of the atoms (roots, sin/cos, exp)."""
from __future__ import annotations
from fractions import Fraction
from math import gcd
from . import terms as tm

ONE_MONO = ()


class TooBig(Exception):
    pass


LIMIT = 20000


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        if a[i][0] == b[j][0]:
            out.append((a[i][0], a[i][1] + b[j][1]))
            i += 1
            j += 1
        elif a[i][0] < b[j][0]:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    r = {}
    for a, ca in p.items():
        for b, cb in q.items():
            m = mmul(a, b)
            v = r.get(m)
            r[m] = ca * cb if v is None else v + ca * cb
    if len(r) > LIMIT:
        raise TooBig()
    return {m: c for m, c in r.items() if c}


def pscale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def ppow(p, n):
    r = {ONE_MONO: Fraction(1)}
    while n:
        if n & 1:
            r = pmul(r, p)
        n >>= 1
        if n:
            p = pmul(p, p)
    return r


def _mdiv(a, b):
    """a / b or None"""
    d = dict(a)
    for i, e in b:
        if d.get(i, 0) < e:
            return None
        d[i] -= e
        if d[i] == 0:
            del d[i]
    return tuple(sorted(d.items()))


def _key(m):
    # lexicographic with larger atom index more significant
    return tuple(sorted(m, reverse=True))


def pdivexact(p, q, maxsteps=400):
    """p / q if exact else None"""
    if not p:
        return {}
    lq = max(q, key=_key)
    cq = q[lq]
    r = dict(p)
    out = {}
    steps = 0
    while r:
        lr = max(r, key=_key)
        m = _mdiv(lr, lq)
        if m is None:
            return None
        c = r[lr] / cq
        out[m] = c
        for b, cb in q.items():
            mm = mmul(m, b)
            v = r.get(mm, 0) - c * cb
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
        steps += 1
        if steps > maxsteps or len(r) > 3000:
            return None
    return out


class RF:
    __slots__ = ("num", "den")

    def __init__(self, num, den=None):
        self.num = num            # dict mono -> Fraction
        self.den = den or {}      # dict frozenset(poly items) -> exponent

    def key(self):
        return (frozenset(self.num.items()), frozenset(self.den.items()))

    def is_zero(self):
        return not self.num

    def const(self):
        if self.den:
            return None
        if not self.num:
            return Fraction(0)
        if len(self.num) == 1 and ONE_MONO in self.num:
            return self.num[ONE_MONO]
        return None


class Canon:
    def __init__(self, rules=()):
        """rules: list of (term, power, term): user relations  atom**power = rhs
        valid under the assumptions of the query (atom a variable)."""
        self.atoms = []      # idx -> descriptor (kind, data, key)
        self.index = {}
        self.rel = {}        # idx -> (n, RF)   atom**n = RF
        self.memo = {}
        self.gcds = {}       # (kind, monomial key) -> Fraction base coefficient
        self.rules = {t: (n, rhs) for t, n, rhs in rules}

    # ------------------------------------------------------------ atoms
    def atom(self, key, desc, rel=None):
        i = self.index.get(key)
        if i is None:
            i = len(self.atoms)
            self.index[key] = i
            self.atoms.append(desc)
            if rel is not None:
                r = rel(i)
                if r is not None:
                    self.rel[i] = r
        return i

    def apoly(self, i):
        return {((i, 1),): Fraction(1)}

    # ------------------------------------------------------------ reduction
    def reduce(self, p):
        """poly -> RF with all relational powers reduced"""
        if not self.rel:
            return RF(p)
        while True:
            # highest relational atom with a too large exponent
            top = -1
            for m in p:
                for i, e in m:
                    if i > top and i in self.rel and e >= self.rel[i][0]:
                        top = i
            if top < 0:
                return RF(p)
            n, rhs = self.rel[top]
            keep = {}
            groups = {}
            for m, c in p.items():
                e = 0
                for i, k in m:
                    if i == top:
                        e = k
                q, r = divmod(e, n)
                if q == 0:
                    keep[m] = c
                else:
                    mm = tuple((i, k) if i != top else (i, r) for i, k in m if i != top or r)
                    g = groups.setdefault(q, {})
                    g[mm] = g.get(mm, 0) + c
            if not rhs.den:
                out = keep
                for q, g in groups.items():
                    g = {m: c for m, c in g.items() if c}
                    out = padd(out, pmul(g, ppow(rhs.num, q)))
                p = out
                continue
            acc = self.reduce(keep)
            for q, g in groups.items():
                g = {m: c for m, c in g.items() if c}
                x = self.reduce(g)
                for _ in range(q):
                    x = self.mul(x, rhs)
                acc = self.add(acc, x)
            return acc

    # ------------------------------------------------------------ field operations
    def add(self, a, b):
        if not a.num:
            return b
        if not b.num:
            return a
        if a.den == b.den:
            n = padd(a.num, b.num)
            return self._cancel(RF(n, dict(a.den))) if n else RF({})
        den = dict(a.den)
        for f, e in b.den.items():
            den[f] = max(den.get(f, 0), e)

        def lift(x):
            q = x.num
            for f, e in den.items():
                k = e - x.den.get(f, 0)
                if k > 0:
                    q = pmul(q, ppow(dict(f), k))
            return q

        n = padd(lift(a), lift(b))
        if not n:
            return RF({})
        r = self.reduce(n)
        if not r.num:
            return RF({})
        return self._cancel(self._withden(r, den))

    def _withden(self, r, den):
        d = dict(r.den)
        for f, e in den.items():
            d[f] = d.get(f, 0) + e
        return RF(r.num, d)

    def mul(self, a, b):
        if not a.num or not b.num:
            return RF({})
        # cross cancellation
        an, ad, bn, bd = a.num, dict(a.den), b.num, dict(b.den)
        r = self.reduce(pmul(an, bn))
        if not r.num:
            return RF({})
        den = dict(r.den)
        for dd in (ad, bd):
            for f, e in dd.items():
                den[f] = den.get(f, 0) + e
        return self._cancel(RF(r.num, den))

    def _cancel(self, r):
        if not r.den or not r.num:
            return RF(r.num, r.den if r.num else {})
        num, den = r.num, dict(r.den)
        for f in list(den):
            fp = dict(f)
            while den.get(f, 0) > 0:
                if len(fp) == 1:
                    (m, _), = fp.items()
                    q = {}
                    for a, c in num.items():
                        z = _mdiv(a, m)
                        if z is None:
                            q = None
                            break
                        q[z] = c
                else:
                    if len(num) > 400:
                        break
                    q = pdivexact(num, fp)
                if q is None:
                    break
                num = q
                den[f] -= 1
                if den[f] == 0:
                    del den[f]
        return RF(num, den)

    def inv(self, a):
        """1/a for nonzero a"""
        num, den = a.num, a.den
        out = RF({ONE_MONO: Fraction(1)})
        for f, e in den.items():
            for _ in range(e):
                out = RF(pmul(out.num, dict(f)))
        r = self.reduce(out.num)
        # split the new denominator: common monomial, then the primitive rest
        common = None
        for m in num:
            d = dict(m)
            common = d if common is None else {i: min(e, d.get(i, 0)) for i, e in common.items() if d.get(i, 0)}
        common = tuple(sorted((i, e) for i, e in (common or {}).items() if e))
        rest = {_mdiv(m, common): c for m, c in num.items()}
        lead = rest[max(rest, key=_key)]
        rest = {m: c / lead for m, c in rest.items()}
        r = RF(pscale(r.num, 1 / lead), r.den)
        d = dict(r.den)
        if not (len(rest) == 1 and ONE_MONO in rest):
            # a + b*root: rationalise when only one quadratic root occurs linearly
            k = frozenset(rest.items())
            d[k] = d.get(k, 0) + 1
        res = RF(r.num, d)
        for i, e in common:
            if i in self.rel and not self.rel_is_sc(i):
                n, rhs = self.rel[i]
                # 1/r^e = r^(n*k-e) / rhs^k
                k = -(-e // n)
                up = RF({((i, n * k - e),): Fraction(1)}) if n * k - e else RF({ONE_MONO: Fraction(1)})
                res = self.mul(res, up)
                for _ in range(k):
                    res = self.mul(res, self.inv(rhs))
            else:
                f = frozenset({((i, 1),): Fraction(1)}.items())
                d2 = dict(res.den)
                d2[f] = d2.get(f, 0) + e
                res = RF(res.num, d2)
        return self._cancel(res)

    def rel_is_sc(self, i):
        return self.atoms[i][0] in ("sin", "rule")

    # ------------------------------------------------------------ scanning of angles
    def prescan(self, ts):
        for t in tm.subterms(ts):
            if t.op == "fn" and t.val in ("sin", "cos", "exp"):
                try:
                    for c, m in self._linear(t.args[0]):
                        k = ("e" if t.val == "exp" else "t", m)
                        self.gcds[k] = _fgcd(self.gcds.get(k, self._unit(m)), c)
                except TooBig:
                    pass

    def _unit(self, m):
        """arccos and log atoms are kept whole, so that their inverses cancel"""
        if m[0] == "m" and len(m[1]) == 1 and m[1][0][1] == 1:
            d = self.atoms[m[1][0][0]]
            if d[0] == "fn" and d[1].val in ("acos", "log"):
                return Fraction(1)
        return Fraction(0)

    def _linear(self, x):
        """argument as list of (rational coefficient, base key)"""
        r = self.rf(x)
        if r.den:
            return [(Fraction(1), ("rf", r.key()))]
        return [(c, ("m", m)) for m, c in sorted(r.num.items(), key=lambda z: z[0])]

    def rf(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        for s in tm.subterms([t]):
            if s not in self.memo and s.sort == "R" or (s.sort == "I" and s not in self.memo):
                self.memo[s] = self._rf1(s)
        return self.memo[t]

    def _rf1(self, t):
        op = t.op
        g = lambda a: self.memo[a] if a in self.memo else self.rf(a)
        if op == "c":
            return RF({ONE_MONO: t.val} if t.val else {})
        if op == "var":
            if t in self.rules:
                n, rhs = self.rules[t]
                i = self.atom(("var", t.val), ("rule", t), lambda i: (n, self.rf(rhs)))
            else:
                i = self.atom(("var", t.val), ("var", t))
            return RF(self.apoly(i))
        if op == "pi":
            return RF(self.apoly(self.atom(("pi",), ("pi", t))))
        if op == "add":
            # sum with equal denominators grouped
            acc = RF({})
            groups = {}
            for a in t.args:
                r = g(a)
                k = frozenset(r.den.items())
                groups[k] = RF(padd(groups[k].num, r.num), dict(r.den)) if k in groups else r
            for r in groups.values():
                acc = self.add(acc, r)
            return acc
        if op == "mul":
            acc = RF({ONE_MONO: Fraction(1)})
            for a in t.args:
                acc = self.mul(acc, g(a))
            return acc
        if op == "pow":
            acc = RF({ONE_MONO: Fraction(1)})
            b = g(t.args[0])
            for _ in range(t.val):
                acc = self.mul(acc, b)
            return acc
        if op == "div":
            b = g(t.args[1])
            if b.is_zero():
                return RF(self.apoly(self.atom(("bad", t.id), ("bad", t))))
            return self.mul(g(t.args[0]), self.inv(b))
        if op == "root":
            u = g(t.args[0])
            c = u.const()
            if c is not None and c >= 0:
                z = tm.root(tm.const(c), t.val)
                if z.op == "c":
                    return RF({ONE_MONO: z.val} if z.val else {})
            return self._root(t, t.val, u)
        if op == "fn":
            if t.val in ("sin", "cos"):
                return self._trig(t)
            if t.val == "exp":
                return self._exp(t)
            u = g(t.args[0])
            if t.val in ("log", "acos") and not u.den and len(u.num) == 1:
                (m, c), = u.num.items()
                if c == 1 and len(m) == 1:
                    d = self.atoms[m[0][0]]
                    if t.val == "log" and d[0] == "exp" and d[2][0][0] == "m":
                        return RF({d[2][0][1]: d[2][1] * m[0][1]})
                    if t.val == "acos" and d[0] == "cos" and m[0][1] == 1 and d[2][1][0] == "m":
                        r = self._angle_range(d[2])
                        if r is not None and r[0] >= 0 and r[1] <= 1:
                            return RF({d[2][1][1]: d[2][2]})
            i = self.atom(("fn", t.val, u.key()), ("fn", t, u))
            return RF(self.apoly(i))
        if op == "app":
            ks = tuple(self.rf(a).key() if a.sort in "RI" else a.id for a in t.args)
            i = self.atom(("app", t.val, ks), ("app", t))
            return RF(self.apoly(i))
        if op == "toreal":
            i = self.atom(("term", t.args[0].id), ("term", t.args[0]))
            return RF(self.apoly(i))
        i = self.atom(("term", t.id), ("term", t))
        return RF(self.apoly(i))

    def _angle_range(self, key):
        """range of the base angle, in units of pi (slightly widened), or None"""
        _, m, base = key
        if m[0] != "m":
            return None
        ids = [j for j, e in m[1] for _ in range(e)]
        kinds = [self.atoms[j][0] for j in ids]
        vs = [self.atoms[j][1] for j, k in zip(ids, kinds) if k in ("var", "rule")]
        if len(vs) != 1 or any(k not in ("var", "rule", "pi") for k in kinds) or kinds.count("pi") > 1:
            return None
        lo, ls, hi, hs = tm.interval(vs[0])
        if lo is None or hi is None:
            return None
        if kinds.count("pi"):
            return lo * base, hi * base
        lo, hi = lo * base, hi * base
        up, dn = Fraction("3.1415926535"), Fraction("3.1415926536")
        return (lo / dn if lo >= 0 else lo / up), (hi / up if hi >= 0 else hi / dn)

    def _nonneg(self, i):
        d = self.atoms[i]
        if d[0] in ("var", "rule"):
            lo = tm.interval(d[1])[0]
            return lo is not None and lo >= 0
        if d[0] in ("exp", "pi"):
            return True
        if d[0] == "root":
            return d[3] % 2 == 0
        if d[0] == "fn" and d[1].val == "acos":
            return True
        if d[0] == "fn" and d[1].val == "log":
            lo = tm.interval(d[1].args[0])[0]
            return lo is not None and lo >= 1
        if d[0] == "sin":
            r = self._angle_range(d[2])
            return r is not None and r[0] >= 0 and r[1] <= 1
        return False

    def _root(self, t, n, u):
        """n-th root of u; n-th powers of nonnegative atoms leave the root"""
        out = RF({ONE_MONO: Fraction(1)})
        if n % 2 == 0 and u.num:
            common = None
            for m in u.num:
                d = dict(m)
                common = d if common is None else {i: min(e, d.get(i, 0)) for i, e in common.items() if d.get(i, 0)}
            pull = tuple((i, e // n) for i, e in sorted((common or {}).items()) if e >= n and self._nonneg(i))
            den = dict(u.den)
            if pull:
                full = tuple((i, e * n) for i, e in pull)
                u = RF({_mdiv(m, full): c for m, c in u.num.items()}, den)
                out = RF({pull: Fraction(1)})
            for f, e in list(den.items()):
                fp = dict(f)
                if len(fp) == 1 and e >= n:
                    (m, c), = fp.items()
                    if c == 1 and len(m) == 1 and self._nonneg(m[0][0]):
                        k = e // n
                        den[f] = e - k * n
                        if not den[f]:
                            del den[f]
                        u = RF(u.num, dict(den))
                        out = RF(out.num, {**out.den, f: k})
            c = u.const()
            if c is not None and c >= 0:
                z = tm.root(tm.const(c), n)
                if z.op == "c":
                    return RF(pscale(out.num, z.val), out.den)
            if n == 2 and not u.den and len(u.num) == 2 and ONE_MONO in u.num:
                # k (1 - cos^2) with a nonnegative sine
                k = u.num[ONE_MONO]
                (m, c), = [x for x in u.num.items() if x[0] != ONE_MONO]
                if c == -k and k > 0 and len(m) == 1 and m[0][1] == 2 and self.atoms[m[0][0]][0] == "cos":
                    z = tm.root(tm.const(k), 2)
                    d = self.atoms[m[0][0]]
                    si = self.index.get(("sinb",) + d[2])
                    if z.op == "c" and si is not None and self._nonneg(si):
                        return self.mul(out, RF({((si, 1),): z.val}))
        key = ("root", n, u.key())
        i = self.atom(key, ("root", t, u, n), lambda i: (n, u))
        r = RF(self.apoly(i))
        return r if out.num == {ONE_MONO: 1} and not out.den else self.mul(out, r)

    def _trig(self, t):
        lin = self._linear(t.args[0])
        # cos/sin of a sum: expand over the base angles
        C, S = RF({ONE_MONO: Fraction(1)}), RF({})
        for c, m in lin:
            base = self.gcds.get(("t", m)) or _fgcd(self._unit(m), c)
            k = c / base
            if k.denominator != 1:
                base, k = c, Fraction(1)
            ck, sk = self._multiple(("t", m, abs(base)), int(k if base > 0 else -k), t, m)
            C, S = (self.add(self.mul(C, ck), self.neg(self.mul(S, sk))),
                    self.add(self.mul(S, ck), self.mul(C, sk)))
        return C if t.val == "cos" else S

    def neg(self, a):
        return RF(pscale(a.num, -1), a.den)

    def _base(self, key, t, m):
        """cosine and sine of the base angle when they are algebraic"""
        if m[0] != "m" or len(m[1]) != 1 or m[1][0][1] != 1:
            return None
        d = self.atoms[m[1][0][0]]
        if d[0] != "fn" or d[1].val != "acos":
            return None
        u = d[2]
        one = RF({ONE_MONO: Fraction(1)})
        if key[2] == 1:
            return u, self._root(None, 2, self.add(one, self.neg(self.mul(u, u))))
        if key[2] == Fraction(1, 2):
            half = RF({ONE_MONO: Fraction(1, 2)})
            return (self._root(None, 2, self.mul(half, self.add(one, u))),
                    self._root(None, 2, self.mul(half, self.add(one, self.neg(u)))))
        return None

    def _multiple(self, key, k, t, m):
        b = self._base(key, t, m)
        if b is not None:
            c1, s1 = b
            return self._mult(c1, s1, k)
        ci = self.atom(("cosb",) + key, ("cos", t, key))
        c1 = RF(self.apoly(ci))
        si = self.atom(("sinb",) + key, ("sin", t, key, ci),
                       lambda i: (2, RF({ONE_MONO: Fraction(1), ((ci, 2),): Fraction(-1)})))
        s1 = RF(self.apoly(si))
        return self._mult(c1, s1, k)

    def _mult(self, c1, s1, k):
        C, S = RF({ONE_MONO: Fraction(1)}), RF({})
        for _ in range(abs(k)):
            C, S = (self.add(self.mul(C, c1), self.neg(self.mul(S, s1))),
                    self.add(self.mul(S, c1), self.mul(C, s1)))
        return C, (S if k >= 0 else self.neg(S))

    def _exp(self, t):
        acc = RF({ONE_MONO: Fraction(1)})
        for c, m in self._linear(t.args[0]):
            base = self.gcds.get(("e", m)) or _fgcd(self._unit(m), c)
            k = c / base
            if k.denominator != 1:
                base, k = c, Fraction(1)
            if base < 0:
                base, k = -base, -k
            a = None
            if m[0] == "m" and len(m[1]) == 1 and m[1][0][1] == 1 and base in (1, Fraction(1, 2)):
                d = self.atoms[m[1][0][0]]
                if d[0] == "fn" and d[1].val == "log":
                    a = d[2] if base == 1 else self._root(None, 2, d[2])
            if a is None:
                i = self.atom(("expb", m, base), ("exp", t, (m, base)))
                a = RF(self.apoly(i))
            if k < 0:
                a = self.inv(a)
            for _ in range(abs(int(k))):
                acc = self.mul(acc, a)
        return acc


def _fgcd(a, b):
    a, b = abs(Fraction(a)), abs(Fraction(b))
    if a == 0:
        return b
    if b == 0:
        return a
    d = a.denominator * b.denominator // gcd(a.denominator, b.denominator)
    return Fraction(gcd(int(a * d), int(b * d)), d)
