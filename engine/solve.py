"""Deciding a claim over symbolic terms with SMT solvers (z3, cvc5)."""
from __future__ import annotations
import math
import os
import re
import signal
import subprocess
import tempfile
import time
from fractions import Fraction
from . import terms as tm
from .canon import Canon, RF, TooBig, ONE_MONO

Z3 = "z3-new"
CVC5 = "cvc5"
PI_LO, PI_HI = Fraction("3.14159265358979323846264338327950288"), Fraction("3.14159265358979323846264338327950289")


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.feas = 0
        self.normal_form = 0
        self.trivial = 0
        self.time = 0.0
        self.max_time = 0.0
        self.by_solver = {}
        self.samples = []

    def as_dict(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat, unknown=self.unknown,
                    feasibility_queries=self.feas, closed_by_normal_form=self.normal_form,
                    closed_by_rewriting=self.trivial, solver_time_s=round(self.time, 3), max_query_s=round(self.max_time, 3),
                    by_solver=self.by_solver)


# ------------------------------------------------------------------ running solvers
def _run(cmds, text, timeout):
    """run several solver commands on the same text, first definite answer wins"""
    procs = []
    f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
    f.write(text)
    f.close()
    t0 = time.time()
    out = None
    try:
        for name, cmd in cmds:
            p = subprocess.Popen(["prlimit", "--as=6442450944"] + cmd + [f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                                 close_fds=False)
            os.set_blocking(p.stdout.fileno(), False)
            procs.append([name, p, ""])
        dead = time.time() + timeout + 0.5
        pending = list(procs)
        while pending and time.time() < dead:
            for e in list(pending):
                name, p, buf = e
                rc = p.poll()
                try:
                    while True:
                        s = p.stdout.read(1 << 16)
                        if not s:
                            break
                        e[2] += s
                except (BlockingIOError, TypeError):
                    pass
                if rc is not None:
                    try:
                        s = p.stdout.read()
                        if s:
                            e[2] += s
                    except (BlockingIOError, TypeError):
                        pass
                    pending.remove(e)
                    first = e[2].lstrip().split("\n", 1)[0].strip()
                    if first in ("sat", "unsat"):
                        return first, e[2], name, time.time() - t0
            time.sleep(0.002)
        return "unknown", "", "-", time.time() - t0
    finally:
        for _, p, _ in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
            p.stdout.close()
        os.unlink(f.name)


def q(fr):
    """Fraction -> SMT-LIB real"""
    fr = Fraction(fr)
    a = f"{abs(fr.numerator)}.0" if fr.denominator == 1 else f"(/ {abs(fr.numerator)}.0 {fr.denominator}.0)"
    return f"(- {a})" if fr < 0 else a


class Encoder:
    """terms -> SMT-LIB.  mode 'struct' keeps the program structure, mode
    'poly' replaces every comparison by one of polynomial normal forms."""

    def __init__(self, canon: Canon, mode="struct"):
        self.canon = canon
        self.mode = mode
        self.decl = []       # declarations
        self.cons = []       # side constraints
        self.memo = {}
        self.names = {}      # smt name -> what
        self.atom_done = {}
        self.apps = {}       # (name, deriv) -> list of (term, smt)
        self.n = 0

    def fresh(self, sort="Real", what=None, pre="f"):
        self.n += 1
        s = f"{pre}{self.n}"
        self.decl.append(f"(declare-const {s} {sort})")
        self.names[s] = what
        return s

    # -------- canonical atoms
    def atom(self, i):
        s = self.atom_done.get(i)
        if s is not None:
            return s
        d = self.canon.atoms[i]
        kind = d[0]
        if kind in ("var", "rule"):
            return self._reg(i, self.enc(d[1]))
        if kind == "pi":
            s = self._reg(i, self.fresh(what=("pi",)))
            self.cons.append(f"(and (< {q(PI_LO)} {s}) (< {s} {q(PI_HI)}))")
            return s
        if kind == "root":
            s = self._reg(i, self.fresh(what=("root", d[1])))
            n = d[3]
            u = self.rf_parts(d[2])
            num, den = u
            rn = f"(* {' '.join([s] * n)})"
            eqn = f"(= (* {rn} {den}) {num})" if den != "1.0" else f"(= {rn} {num})"
            if n % 2 == 0:
                # (even roots)
                ok = f"(>= {num} 0.0)" if den == "1.0" else f"(>= (* {num} {den}) 0.0)"
                self.cons.append(f"(>= {s} 0.0)")
                if d[1] is not None and d[1].args[0].sort == "R" and self.canon.rf(d[1].args[0]).key() == d[2].key() and self._nonneg(None, d[1].args[0]):
                    self.cons.append(eqn)
                else:
                    self.cons.append(f"(=> {ok} {eqn})")
            else:
                self.cons.append(eqn)
            return s
        if kind == "cos":
            s = self._reg(i, self.fresh(what=("cos", d[2])))
            self.cons.append(f"(and (<= (- 1.0) {s}) (<= {s} 1.0))")
            return s
        if kind == "sin":
            s = self._reg(i, self.fresh(what=("sin", d[2])))
            c = self.atom(d[3])
            self.cons.append(f"(= (+ (* {s} {s}) (* {c} {c})) 1.0)")
            self._quadrant(s, c, d[2])
            return s
        if kind == "exp":
            s = self._reg(i, self.fresh(what=("exp", d[2])))
            self.cons.append(f"(> {s} 0.0)")
            m, base = d[2]
            if m[0] == "m":
                e = self.poly({m[1]: base})
                if len(m[1]) == 1 and m[1][0][1] == 1 and self.canon.atoms[m[1][0][0]][0] == "var":
                    lo, _, hi, _ = tm.interval(self.canon.atoms[m[1][0][0]][1])
                    if lo is not None and abs(lo * base) <= 30:
                        self.cons.append(f"(>= {s} {q(Fraction(math.exp(float(lo * base))) * Fraction(999, 1000))})")
                    if hi is not None and abs(hi * base) <= 30:
                        self.cons.append(f"(<= {s} {q(Fraction(math.exp(float(hi * base))) * Fraction(1001, 1000))})")
                # exp(u) >= 1 + u, monotone around 0
                self.cons.append(f"(>= {s} (+ 1.0 {e}))")
                self.cons.append(f"(=> (<= {e} 0.0) (<= {s} 1.0))")
                self.cons.append(f"(=> (< {e} 0.0) (< {s} 1.0))")
            return s
        if kind == "fn":
            t, u = d[1], d[2]
            s = self._reg(i, self.fresh(what=("fn", t)))
            e = self.enc(t.args[0])
            if t.val == "tanh":
                self.cons.append(f"(and (< (- 1.0) {s}) (< {s} 1.0) (=> (> {e} 0.0) (> {s} 0.0)) (=> (< {e} 0.0) (< {s} 0.0)) (=> (= {e} 0.0) (= {s} 0.0)))")
            elif t.val == "acos":
                p = self.atom(self.canon.atom(("pi",), ("pi", tm.PI)))
                self.cons.append(f"(and (<= 0.0 {s}) (<= {s} {p}) (=> (= {e} 1.0) (= {s} 0.0)) (=> (< {e} 1.0) (> {s} 0.0)) (>= (* {s} {s}) (* 2.0 (- 1.0 {e}))))")
            elif t.val == "log":
                self.cons.append(f"(and (=> (= {e} 1.0) (= {s} 0.0)) (=> (> {e} 1.0) (> {s} 0.0)) (=> (and (> {e} 0.0) (< {e} 1.0)) (< {s} 0.0)) (=> (> {e} 0.0) (and (<= {s} (- {e} 1.0)) (>= (* {s} {e}) (- {e} 1.0)))))")
            self._congruence(("fn", t.val), t, s)
            return s
        if kind == "app":
            t = d[1]
            s = self._reg(i, self.fresh(what=("app", t)))
            self._congruence(("app", t.val), t, s)
            return s
        if kind == "term":
            return self._reg(i, f"(to_real {self.enc(d[1])})" if d[1].sort == "I" else self.enc(d[1]))
        if kind == "bad":
            return self._reg(i, self.fresh(what=("bad", d[1])))
        raise AssertionError(kind)

    def _quadrant(self, s, c, key):
        """sign facts of the base angle when its range is known"""
        r = self.canon._angle_range(key)
        if r is None:
            return
        lo, hi = r
        _, m, base = key
        v = next(self.canon.atoms[j][1] for j, e in m[1] if self.canon.atoms[j][0] in ("var", "rule"))
        _, ls, _, hs = tm.interval(v)
        if lo >= 0 and hi <= 1:
            self.cons.append(f"(>= {s} 0.0)")
            low = min(math.sin(math.pi * float(lo)), math.sin(math.pi * float(hi))) - 1e-9
            if low > 0:
                self.cons.append(f"(>= {s} {q(Fraction(low).limit_denominator(10**15) * Fraction(999, 1000))})")
            if (lo > 0 or ls) and (hi < 1 or hs):
                self.cons.append(f"(> {s} 0.0)")
        if lo >= Fraction(-1, 2) and hi <= Fraction(1, 2):
            self.cons.append(f"(>= {c} 0.0)")

    @staticmethod
    def _nonneg(_, u):
        """syntactically a sum of squares"""
        if u.op == "c":
            return u.val >= 0
        if u.op == "var" and u.sort == "R":
            lo = tm.interval(u)[0]
            return lo is not None and lo >= 0
        if u.op == "pow":
            return u.val % 2 == 0 or Encoder._nonneg(None, u.args[0])
        if u.op in ("add", "mul"):
            return all(Encoder._nonneg(None, a) for a in u.args)
        if u.op in ("root",) and u.val % 2 == 0:
            return True
        return False

    def _reg(self, i, s):
        self.atom_done[i] = s
        return s

    def _congruence(self, key, t, s):
        for o, so in self.apps.get(key, []):
            if so == s:
                return
        lst = self.apps.setdefault(key, [])
        lst.append((t, s))

    def finish_congruence(self, limit=400):
        done = set()
        while True:
            work = []
            for key, lst in list(self.apps.items()):
                for a in range(len(lst)):
                    for b in range(a):
                        if (lst[a][1], lst[b][1]) not in done:
                            work.append((lst[a], lst[b]))
                            done.add((lst[a][1], lst[b][1]))
            if not work:
                return
            for (t, s), (o, so) in work[:limit]:
                eqs = []
                dead = False
                for x, y in zip(t.args, o.args):
                    if x is y:
                        continue
                    e = tm.eq(x, y)
                    if e is tm.FALSE:
                        dead = True
                        break
                    try:
                        d = self.canon.rf(tm.sub(x, y)) if x.sort in "RI" else None
                        if d is not None:
                            if d.is_zero():
                                continue
                            if d.const() is not None:
                                dead = True
                                break
                    except TooBig:
                        pass
                    eqs.append(f"(= {self.enc(x)} {self.enc(y)})")
                if dead:
                    continue
                if not eqs:
                    self.cons.append(f"(= {s} {so})")
                else:
                    self.cons.append(f"(=> (and {' '.join(eqs)} true) (= {s} {so}))")
            if len(work) > limit:
                return

    def poly(self, p):
        if not p:
            return "0.0"
        ts = []
        for m, c in sorted(p.items(), key=lambda z: z[0]):
            fs = [self.atom(i) for i, e in m for _ in range(e)]
            if not fs:
                ts.append(q(c))
            else:
                body = fs[0] if len(fs) == 1 else f"(* {' '.join(fs)})"
                ts.append(body if c == 1 else f"(* {q(c)} {body})")
        return ts[0] if len(ts) == 1 else f"(+ {' '.join(ts)})"

    def rf_parts(self, r: RF):
        num = self.poly(r.num)
        if not r.den:
            return num, "1.0"
        fs = []
        for f, e in r.den.items():
            s = self.poly(dict(f))
            fs += [s] * e
        return num, fs[0] if len(fs) == 1 else f"(* {' '.join(fs)})"

    # -------- terms
    def enc(self, t):
        s = self.memo.get(t)
        if s is not None:
            return s
        for u in tm.subterms([t]):
            if u not in self.memo:
                if self.mode == "poly" and u.sort in "R" and u is not t and u.op not in ("var", "c"):
                    pass
                self.memo[u] = self._enc1(u)
        return self.memo[t]

    def _def(self, t, body, sort):
        if len(body) < 60:
            return body
        self.n += 1
        s = f"d{self.n}"
        self.decl.append(("def", s, sort, body))
        return s

    def _enc1(self, t):
        op = t.op
        a = [self.memo.get(x) for x in t.args]
        sort = {"R": "Real", "I": "Int", "B": "Bool", "K": "Int"}[t.sort]
        if op == "c":
            if t.sort == "I":
                v = int(t.val)
                return str(v) if v >= 0 else f"(- {-v})"
            return q(t.val)
        if op == "b":
            return "true" if t.val else "false"
        if op == "var":
            s = self.fresh(sort, ("var", t), "v")
            return s
        if op == "pi":
            return self.atom(self.canon.atom(("pi",), ("pi", t)))
        if op == "add":
            return self._def(t, f"(+ {' '.join(a)})", sort)
        if op == "mul":
            return self._def(t, f"(* {' '.join(a)})", sort)
        if op == "pow":
            return self._def(t, f"(* {' '.join([a[0]] * t.val)})", sort)
        if op == "div":
            s = self.fresh(what=("div", t))
            self.cons.append(f"(=> (not (= {a[1]} 0.0)) (= (* {s} {a[1]}) {a[0]}))")
            return s
        if op in ("root", "fn", "app") and t.sort == "R":
            try:
                r = self.canon.rf(t)
                n, d = self.rf_parts(r)
                if d == "1.0":
                    return n
                s = self.fresh(what=("quot", t))
                self.cons.append(f"(= (* {s} {d}) {n})")
                return s
            except TooBig:
                s = self.fresh(what=("raw", t))
                if op == "root":
                    n = t.val
                    self.cons.append(f"(>= {s} 0.0)")
                    self.cons.append(f"(=> (>= {a[0]} 0.0) (= (* {' '.join([s] * n)}) {a[0]}))")
                return s
        if op in ("app", "split", "fold"):
            s = self.fresh(sort, ("app", t))
            self._congruence((op, t.val), t, s)
            return s
        if op == "floor":
            return f"(to_int {a[0]})"
        if op == "toreal":
            return f"(to_real {a[0]})"
        if op == "ite":
            return self._def(t, f"(ite {a[0]} {a[1]} {a[2]})", sort)
        if op in ("lt", "le", "eq"):
            if self.mode == "poly" and t.args[0].sort == "R" and not _has_ite(t):
                try:
                    return self._polycmp(t)
                except TooBig:
                    pass
            o = {"lt": "<", "le": "<=", "eq": "="}[op]
            return self._def(t, f"({o} {a[0]} {a[1]})", "Bool")
        if op in ("and", "or"):
            return self._def(t, f"({op} {' '.join(a)})", "Bool")
        if op == "not":
            return f"(not {a[0]})"
        if op == "imp":
            return f"(=> {a[0]} {a[1]})"
        if op in ("nan", "inf"):
            return self.fresh(what=("bad", t))
        raise AssertionError(op)

    def _polycmp(self, t):
        r = self.canon.rf(tm.sub(t.args[0], t.args[1]))
        if r.is_zero():
            return "true" if t.op in ("le", "eq") else "false"
        num = self.poly(r.num)
        if t.op == "eq":
            return f"(= {num} 0.0)"
        odd = [self.poly(dict(f)) for f, e in r.den.items() if e % 2]
        if odd:
            num = f"(* {num} {' '.join(odd)})"
        return f"({'<' if t.op == 'lt' else '<='} {num} 0.0)"


_ite_memo = {}


def _has_ite(t):
    r = _ite_memo.get(t)
    if r is None:
        for s in tm.subterms([t]):
            if s not in _ite_memo:
                _ite_memo[s] = (s.op == "ite" and s.sort in "RI") or any(_ite_memo[a] for a in s.args)
        r = _ite_memo[t]
    return r


def _cmp_lazy(t):
    return t


def nnf(t, neg=False, m=None):
    """negation normal form; with a margin m comparisons are strengthened"""
    op = t.op
    if op == "not":
        return nnf(t.args[0], not neg, m)
    if op in ("and", "or"):
        k = [nnf(a, neg, m) for a in t.args]
        return (tm.and_ if (op == "and") != neg else tm.or_)(*k)
    if op == "imp":
        a, b = t.args
        if neg:
            return tm.and_(nnf(a, False, m), nnf(b, True, m))
        return tm.or_(nnf(a, True, m), nnf(b, False, m))
    if op == "ite" and t.sort == "B":
        c, a, b = t.args
        return tm.or_(tm.and_(nnf(c, False, m), nnf(a, neg, m)), tm.and_(nnf(c, True, m), nnf(b, neg, m)))
    if op in ("lt", "le") and t.args[0].sort == "R":
        a, b = t.args
        if neg:
            a, b = b, a
        if m is not None:
            return tm.le(tm.add(a, m), b)
        strict = (op == "lt") != neg
        return tm.lt(a, b) if strict else tm.le(a, b)
    if op == "eq" and t.args[0].sort == "R":
        a, b = t.args
        if neg:
            if m is not None:
                return tm.or_(tm.le(tm.add(a, m), b), tm.le(tm.add(b, m), a))
            return tm.not_(t)
        return t
    if op == "eq" and t.args[0].sort == "B":
        a, b = t.args
        p = tm.and_(nnf(a, False, m), nnf(b, neg, m))
        r = tm.and_(nnf(a, True, m), nnf(b, not neg, m))
        return tm.or_(p, r)
    return tm.not_(t) if neg else t


class Verdict:
    def __init__(self, status, model=None, reason="", slices=0):
        self.status, self.model, self.reason, self.slices = status, model, reason, slices


class Prover:
    def __init__(self, hyps, rules=(), axioms=None, stats=None, t_quick=3.0, t_full=20.0, deadline=None, keep=2):
        self.hyps = [h for h in hyps if h is not tm.TRUE]
        self.rules = rules
        self.axioms = axioms or {}
        self.stats = stats or Stats()
        self.t_quick, self.t_full = t_quick, t_full
        self.deadline = deadline
        self.feas_cache = {}
        self.atoms, self.saturate = {}, False
        self.keep = keep
        self.split_limit = 4000
        self.t_nf = min(0.3, t_quick) if t_full <= 30 else 2.0

    # ------------------------------------------------------------ one query
    def script(self, formulas, mode, get=True):
        canon = Canon(self.rules)
        canon.prescan(formulas)
        enc = Encoder(canon, mode)
        top = []
        # axioms for the stubs (per occurrence)
        extra = []
        if self.axioms:
            seen = set()
            work = list(formulas)
            while work:
                nxt = []
                for s in tm.subterms(work):
                    if s.op == "app" and s.val[0] in self.axioms and s.id not in seen:
                        seen.add(s.id)
                        ax = self.axioms[s.val[0]](s.val[1], s.args, s)
                        nxt += ax
                extra += nxt
                work = nxt
        allf = list(formulas) + extra
        bounds = []
        for s in tm.subterms(allf):
            if s.op == "var" and s.sort in "RI":
                bounds += tm.var_bounds_raw(s)
        for f in allf:
            top.append(enc.enc(f))
        if mode == "poly":
            # the equations used as rewriting rules hold for the remaining atoms as well
            seen = set(tm.subterms(allf))
            for a, k, rhs in self.rules:
                if a in seen:
                    top.append(f"(= (* {' '.join([enc.enc(a)] * k)} 1.0) {enc.enc(rhs)})")
        for s, o, c in bounds:
            v = enc.enc(s)
            top.append(f"({o} {v} {enc.enc(c)})")
        enc.finish_congruence()
        lines = []
        for d in enc.decl:
            if isinstance(d, tuple):
                lines.append(f"(define-fun {d[1]} () {d[2]} {d[3]})")
            else:
                lines.append(d)
        for c in enc.cons + top:
            if c != "true":
                lines.append(f"(assert {c})")
        return lines, enc

    def query(self, formulas, timeout, mode="struct", purpose="claim", portfolio=False):
        if any(f is tm.FALSE for f in formulas):
            return "unsat", None
        formulas = [f for f in formulas if f is not tm.TRUE]
        try:
            lines, enc = self.script(formulas, mode)
        except (TooBig, RecursionError):
            return "unknown", None
        isint = any("Int)" in l or "to_int" in l or "to_real" in l for l in lines)
        names = [s for s, w in enc.names.items()]
        body = "\n".join(lines)
        tail = "\n(check-sat)\n" + (f"(get-value ({' '.join(names)}))\n" if names else "")
        text = "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 40)\n(set-option :model.completion true)\n" + body + tail
        if self.deadline is not None:
            timeout = min(timeout, max(0.2, self.deadline - time.time()))
        ms = int(timeout * 1000)
        cmds = [("z3", [Z3, f"-t:{ms}"])]
        r, out, who, dt = _run(cmds, text, timeout)
        if r == "unknown" and portfolio:
            txt2 = "(set-logic ALL)\n(set-option :produce-models true)\n" + body + tail
            cm2 = [("cvc5", [CVC5, f"--tlimit={ms}"])]
            if not isint:
                cm2.append(("cvc5-cov", [CVC5, f"--tlimit={ms}", "--nl-cov"]))
            r, out, who, dt2 = _run(cm2, txt2, timeout)
            dt += dt2
            if r == "unknown" and not isint:
                t3 = text.replace("(check-sat)", "(check-sat-using (then simplify propagate-values solve-eqs purify-arith elim-term-ite simplify qfnra-nlsat))")
                r, out, who, dt3 = _run([("z3-nlsat", [Z3, f"-t:{ms}"])], t3, timeout)
                dt += dt3
        st = self.stats
        if purpose == "claim":
            st.queries += 1
            setattr(st, r, getattr(st, r) + 1)
            st.max_time = max(st.max_time, dt)
            st.by_solver[who] = st.by_solver.get(who, 0) + 1
            if len(st.samples) < self.keep and r == "unsat" and 200 < len(body) < 6000:
                st.samples.append(dict(result=r, solver=who, seconds=round(dt, 3), smt2=body))
        else:
            st.feas += 1
        st.time += dt
        model = None
        if r == "sat":
            model = self.read_model(out, enc)
        return r, model

    def read_model(self, out, enc):
        vals = {}
        for m in re.finditer(r"\(\s*([vf]\d+)\s+(\(- [^()]*\)|\(/ [^()]*\)|\(- \(/ [^()]*\)\)|[^()\s]+)\s*\)", out):
            vals[m.group(1)] = _num(m.group(2))
        env, apps, angles = {}, [], {}
        for s, w in enc.names.items():
            if w is None or s not in vals or vals[s] is None:
                continue
            if w[0] == "var":
                env[w[1].val] = vals[s]
            elif w[0] == "app":
                apps.append((w[1], vals[s]))
            elif w[0] in ("cos", "sin"):
                angles.setdefault(w[1], {})[w[0]] = vals[s]
        # recover angles / exponents from their function values
        byidx = enc.canon.atoms
        fixes = {}

        def single(m):
            if m[0] != "m":
                return None
            ids = [j for j, e in m[1] for _ in range(e)]
            k = [byidx[j][0] for j in ids]
            vs = [byidx[j][1] for j, kk in zip(ids, k) if kk == "var"]
            if len(vs) == 1 and all(x in ("var", "pi") for x in k):
                return vs[0], math.pi ** k.count("pi")
            return None

        for key, cs in angles.items():
            if "cos" in cs and "sin" in cs:
                z = single(key[1])
                if z:
                    v, f = z
                    per = 2 * math.pi / (float(key[2]) * f)
                    x = math.atan2(float(cs["sin"]), float(cs["cos"])) / (float(key[2]) * f)
                    lo, _, hi, _ = tm.interval(v)
                    if lo is not None and x < lo:
                        x += per * math.ceil((float(lo) - x) / per)
                    fixes[v.val] = x
        for s, w in enc.names.items():
            if w is not None and w[0] == "exp" and s in vals and vals[s]:
                z = single(w[1][0])
                if z and vals[s] > 0:
                    fixes[z[0].val] = math.log(float(vals[s])) / (float(w[1][1]) * z[1])
            if w is not None and w[0] == "fn" and s in vals and vals[s] is not None and w[1].args[0].op == "var":
                try:
                    inv = {"tanh": math.atanh, "log": math.exp, "acos": math.cos}.get(w[1].val)
                    if inv:
                        fixes[w[1].args[0].val] = inv(float(vals[s]))
                except ValueError:
                    pass
        return dict(env=env, apps=apps, fixes=fixes)

    # ------------------------------------------------------------ proving
    def feasible(self, hyps, timeout=None):
        key = frozenset(h.id for h in hyps)
        if key not in self.feas_cache:
            r, _ = self.query(list(hyps), timeout or self.t_quick, "struct", purpose="feas")
            self.feas_cache[key] = r != "unsat"
        return self.feas_cache[key]

    def prove(self, claim, hyps=()):
        base = self.hyps + list(hyps)
        self.leaves = 0
        try:
            d = tm.defined(claim)
            if self.saturate:
                claim, d = self._saturate(base, [claim, d])
            for ob in self._obligations(d):
                v = self._go(base + ob[0], ob[1], "defined")
                if v.status != "proved":
                    v.reason = "undefined value: " + v.reason
                    return v
            extra = [d] if d is not tm.TRUE else []
            obs = self._obligations(claim)
            same = [o for _, o in obs if o.op == "eq" and o.args[0] is o.args[1]]
            if same:
                # both sides evaluated to the same symbolic value: one query for all of them
                neg = [tm._mk("not", (o,), None, "B") for o in same]
                r, _ = self.query(base + [neg[0] if len(neg) == 1 else tm._mk("or", tuple(neg), None, "B")], 1.0)
                if r != "unsat":
                    self.stats.trivial += len(same)
                obs = [o for o in obs if not (o[1].op == "eq" and o[1].args[0] is o[1].args[1])]
            for ob in obs:
                v = self._go(base + extra + ob[0], ob[1], "claim")
                if v.status != "proved":
                    return v
        except TimeoutError:
            return Verdict("unknown", reason="time budget of this claim exhausted")
        return Verdict("proved")

    def _saturate(self, base, fs):
        """decide every ite condition which the hypotheses settle, once"""
        while True:
            mp = {c: v for c, v in self.atoms.items() if v is not None}
            mp.update({tm.not_(c): tm.not_(v) for c, v in list(mp.items())})
            for _ in range(50):
                old, fs = fs, tm.subst(fs, mp)
                if all(x is y for x, y in zip(old, fs)):
                    break
            todo = []
            for s in tm.subterms(fs):
                if s.op == "ite" and not _has_ite(s.args[0]):
                    for c in tm.subterms([s.args[0]]):
                        if c.op in ("lt", "le") or c.op == "eq" and c.args[0].sort != "B":
                            if c not in self.atoms and c not in todo:
                                todo.append(c)
            if not todo:
                break
            for c in todo:
                if self.deadline is not None and time.time() > self.deadline:
                    raise TimeoutError
                self.atoms[c] = None
                for lit, val in ((c, tm.FALSE), (tm.not_(c), tm.TRUE)):
                    for mode in ("struct", "poly"):
                        r, _ = self.query(base + [lit], self.t_quick, mode, purpose="feas")
                        if r != "unknown":
                            break
                    if r == "unsat":
                        self.atoms[c] = val
                        break
        return fs

    def _obligations(self, c):
        out = []

        def walk(c, h):
            if c is tm.TRUE:
                return
            if c.op == "and":
                for a in c.args:
                    walk(a, h)
            elif c.op == "imp":
                walk(c.args[1], h + [c.args[0]])
            elif c.op == "ite" and c.sort == "B":
                walk(c.args[1], h + [c.args[0]])
                walk(c.args[2], h + [tm.not_(c.args[0])])
            else:
                out.append((h, c))

        walk(c, [])
        return out

    def _pick(self, ob):
        """an ite condition of ob that itself is ite-free"""
        for s in tm.subterms([ob]):
            if s.op == "ite" and s.sort in "RI" and not _has_ite(s.args[0]):
                c = s.args[0]
                while c.op in ("and", "or", "not", "imp") or (c.op == "eq" and c.args[0].sort == "B"):
                    c = c.args[0]
                return c
        return None

    def _skeleton(self, hyps, ob):
        """Is the claim a consequence of the Boolean / linear structure alone?  Every
        nonlinear subterm becomes an arbitrary real, so `unsat` is conclusive."""
        res = {}
        fs = list(hyps) + [tm.not_(ob)]
        try:
            for t in tm.subterms(fs):
                if t.sort == "R" and (t.op in ("div", "pow", "root", "fn", "app", "floor", "nan", "inf") or (t.op == "mul" and not (len(t.args) == 2 and t.args[0].op == "c"))):
                    lo = 0 if t.op == "root" and t.val % 2 == 0 or t.op == "pow" and t.val % 2 == 0 else None
                    res[t] = tm.var(f"sk!{t.id}", "R", lo)
                elif not t.args:
                    res[t] = t
                elif t.sort == "K":
                    return False
                else:
                    na = [res[a] for a in t.args]
                    res[t] = t if all(x is y for x, y in zip(na, t.args)) else tm.rebuild(t, na)
        except (AssertionError, KeyError, RecursionError):
            return False
        r, _ = self.query([res[f] for f in fs], 2.0, "struct")
        return r == "unsat"

    def _go(self, hyps, ob, kind):
        stack = [(tuple(hyps), ob)]
        if ob is not tm.TRUE and _has_ite(ob) and len(tm.subterms([ob])) > 60:
            if self._skeleton(hyps, ob):
                return Verdict("proved")
        while stack:
            if self.deadline is not None and time.time() > self.deadline:
                raise TimeoutError
            hyps, ob = stack.pop()
            self.leaves += 1
            if self.leaves > self.split_limit:
                return Verdict("unknown", reason="too many paths")
            if ob is tm.TRUE:
                self.stats.trivial += 1
                continue
            if ob.op in ("and", "imp") or (ob.op == "ite"):
                obs = self._obligations(ob)
                for h, o in obs:
                    hh = [x for x in h if x is not tm.TRUE]
                    if any(x is tm.FALSE for x in hh):
                        continue
                    stack.append((tuple(hyps) + tuple(hh), o))
                continue
            if not _has_ite(ob):
                v = self._leaf(list(hyps), ob)
                if v.status != "proved":
                    return v
                continue
            # try the whole thing at once first when it is small
            c = self._pick(ob)
            if c is None:
                v = self._leaf(list(hyps), ob)
                if v.status != "proved":
                    return v
                continue
            for lit in (c, tm.not_(c)):
                mp = {lit: tm.TRUE, tm.not_(lit): tm.FALSE}
                # implied by a syntactic hypothesis?
                if tm.not_(lit) in hyps:
                    continue
                h2 = tuple(hyps) + ((lit,) if lit not in hyps else ())
                new = tm.subst([ob] + list(h2[:len(hyps)]), mp)
                o2 = new[0]
                h3 = [x for x in new[1:] if x is not tm.TRUE]
                if any(x is tm.FALSE for x in h3):
                    continue
                h3 = tuple(h3) + (lit,)
                if o2 is tm.TRUE:
                    self.stats.trivial += 1
                    continue
                if not self.feasible(h3):
                    continue
                stack.append((h3, o2))
        return Verdict("proved")

    def _leaf(self, hyps, ob):
        if ob is tm.TRUE:
            self.stats.trivial += 1
            return Verdict("proved")
        if ob.op == "eq" and ob.args[0].sort == "R":
            try:
                can = Canon(self.rules)
                d = tm.sub(ob.args[0], ob.args[1])
                can.prescan([d])
                if can.rf(d).is_zero():
                    # the normal form decides it; ask the solver about the plain encoding too when it is cheap
                    if self.stats.normal_form < 400:
                        r, _ = self.query(hyps + [tm.not_(ob)], self.t_nf, "struct")
                        if r == "unsat":
                            return Verdict("proved")
                    self.stats.normal_form += 1
                    return Verdict("proved")
            except (TooBig, RecursionError):
                pass
        if ob.op == "le" and ob.args[0] is tm.ZERO and ob.args[1].sort == "R" and Encoder._nonneg(None, ob.args[1]):
            self.stats.trivial += 1
            return Verdict("proved")
        neg = nnf(ob, True)
        fs = hyps + [neg]
        r, model = "unknown", None
        for mode, to, port in (("struct", self.t_quick, False), ("poly", self.t_quick, False),
                               ("poly", self.t_full, True), ("struct", self.t_full, True)):
            r, model = self.query(fs, to, mode, portfolio=port)
            if r != "unknown":
                break
            if self.deadline is not None and time.time() > self.deadline:
                break
        if r == "unsat":
            return Verdict("proved")
        if r == "unknown":
            v = Verdict("unknown", reason="solver gave no answer")
            v.leaf = (hyps, ob)
            return v
        v = Verdict("refuted", model=model, reason=tm.to_str(ob, 4)[:300])
        v.leaf = (hyps, ob)
        return v

    def models(self, leaf, boxes=((4, "1/8"), (10, "1/1000"))):
        """counterexamples of a refuted leaf, robust ones first"""
        hyps, ob = leaf
        vs = [s for s in tm.subterms(hyps + [ob]) if s.op == "var" and s.sort == "R"]
        apps = [s for s in tm.subterms(hyps + [ob]) if s.op == "app" and s.sort == "R"]
        for b, m in boxes:
            f = nnf(ob, True, tm.const(Fraction(m)))
            bx = [tm.and_(tm.le(tm.const(-b), v), tm.le(v, tm.const(b))) for v in vs + apps]
            for mode in ("struct", "poly"):
                r, model = self.query(hyps + bx + [f], self.t_quick, mode, purpose="cex")
                if r == "sat":
                    yield model
                    break
        r, model = self.query(hyps + [nnf(ob, True)], self.t_quick, "poly", purpose="cex")
        if r == "sat":
            yield model
        # degenerate ones: some inputs exactly zero (0 * inf is not a number)
        names = [v for v in vs if not v.val.startswith(("sk!", "out!"))][:8]
        for sub in [[v] for v in names] + [[a, b] for k, a in enumerate(names) for b in names[:k]][:12]:
            if self.deadline is not None and time.time() > self.deadline:
                return
            r, model = self.query(hyps + [tm._mk("eq", (v, tm.ZERO), None, "B") for v in sub] + [nnf(ob, True)], min(1.0, self.t_quick), "struct", purpose="cex")
            if r == "sat":
                yield model


def _num(s):
    s = s.strip()
    try:
        if s in ("true", "false"):
            return s == "true"
        if s.startswith("(-"):
            v = _num(s[2:-1])
            return None if v is None else -v
        if s.startswith("(/"):
            a, b = s[2:-1].split()
            return Fraction(a.rstrip("?")) / Fraction(b.rstrip("?"))
        return Fraction(s.rstrip("?"))
    except (ValueError, ZeroDivisionError):
        return None
