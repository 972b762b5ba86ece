"""Harnesses: symbolic inputs -> real code -> claims, decided by the solver."""
from __future__ import annotations
import json
import math
import os
import time
import traceback
from fractions import Fraction
from types import SimpleNamespace
import numpy as np
import jax
import jax.numpy as jnp
from . import terms as tm, interp, trace, opaque
from .terms import T, Unsupported
from .solve import Prover, Stats, Verdict
from .canon import TooBig

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Arr:
    """specification of one symbolic input array"""

    def __init__(self, *shape, lo=None, hi=None, lo_strict=False, hi_strict=False, kind="R", srange=None):
        self.shape = shape
        self.lo, self.hi, self.lo_strict, self.hi_strict = lo, hi, lo_strict, hi_strict
        self.kind = kind
        self.srange = srange


def pos(*shape, hi=None):
    return Arr(*shape, lo=0, lo_strict=True, hi=hi)


def unit(*shape):
    """[0, 1)"""
    return Arr(*shape, lo=0, hi=1, hi_strict=True)


class Key(Arr):
    def __init__(self):
        super().__init__(kind="K")


class H:
    """One harness.

    inputs : dict name -> Arr
    fn(i)  : calls the real code on the namespace of (traced or concrete) arrays
    assume(i) : list of terms
    claim(i, o): list of (label, term)
    """

    def __init__(self, name, inputs, fn, claim, assume=None, rules=None, axioms=None, sample=None, raises=None,
                 while_bound=4, opaques=None, bounds="", t_quick=None, t_full=None, tier="quick", diff=True,
                 tol=1e-7, replay=None, budget=None, lemmas=None, nsamples=3, margin_boxes=None, concrete=None,
                 ndiff=3, subst=None, cover=None, isolate=None, saturate=False):
        self.saturate = saturate
        self.isolate = isolate    # property id: the real code is run in a process of its own (it may not return)
        self.cover = cover        # confirms refuted reachability claims on many runs of the real code
        self.subst = subst
        self.name, self.inputs, self.fn, self.claim = name, inputs, fn, claim
        self.assume = assume or (lambda i: [])
        self.rules = rules or (lambda i: [])
        self.axioms = axioms or {}
        self.sample = sample
        self.raises = raises      # predicate on exceptions which are allowed on a path
        self.while_bound = while_bound
        self.bounds = bounds
        self.t_quick, self.t_full = t_quick, t_full
        self.tier = tier
        self.diff = diff
        self.tol = tol
        self.replay = replay
        self.budget = budget
        self.lemmas = lemmas
        self.margin_boxes = margin_boxes
        self.concrete = concrete or {}   # name -> python callable used for that opaque in concrete runs
        self.ndiff = ndiff


# ------------------------------------------------------------------ symbolic inputs
def mkvars(name, spec):
    a = np.empty(spec.shape, dtype=object)
    for i in np.ndindex(*spec.shape):
        nm = name + ("" if not spec.shape else "[" + ",".join(map(str, i)) + "]")
        if spec.kind == "R":
            a[i] = tm.var(nm, "R", spec.lo, spec.hi, spec.lo_strict, spec.hi_strict)
        elif spec.kind == "I":
            a[i] = tm.var(nm, "I", spec.lo, spec.hi)
        elif spec.kind == "B":
            a[i] = tm.var(nm, "B")
        elif spec.kind == "K":
            a[i] = tm.var(nm, "K")
    return a


def unwrap(a):
    return a[()] if isinstance(a, np.ndarray) and a.shape == () else a


def aval(spec):
    if spec.kind == "R":
        return jax.ShapeDtypeStruct(spec.shape, jnp.float64)
    if spec.kind == "I":
        return jax.ShapeDtypeStruct(spec.shape, jnp.int64)
    if spec.kind == "B":
        return jax.ShapeDtypeStruct(spec.shape, jnp.bool_)
    if spec.kind == "K":
        return jax.eval_shape(lambda: jax.random.key(0))
    raise AssertionError


def ns(names, vals):
    return SimpleNamespace(**dict(zip(names, vals)))


# ------------------------------------------------------------------ tolerant evaluation
def tri(t, env, funs, tol, memo=None):
    """three valued evaluation of a boolean term over floats: True, False or
    None when it is within rounding distance of changing"""
    memo = {} if memo is None else memo
    b = {}
    nums = [s for s in tm.subterms([t])]
    val = {}

    def num(s):
        return val[s]

    for s in nums:
        op = s.op
        if s.sort != "B":
            if op == "ite":
                c, x, y = (val[a] for a in s.args)
                if c is None:
                    val[s] = x if x == y else float("nan") if not _close(x, y, tol) else x
                    if val[s] != val[s]:
                        val[s] = _UNDEC
                else:
                    val[s] = x if c else y
            else:
                a = [val[x] for x in s.args]
                if any(x is _UNDEC for x in a):
                    val[s] = _UNDEC
                else:
                    val[s] = tm._neval1(s, a, env, funs)
            continue
        a = [val[x] for x in s.args]
        if any(x is _UNDEC for x in a):
            val[s] = None
            continue
        if op == "b":
            val[s] = s.val
        elif op == "var":
            val[s] = bool(env[s.val])
        elif op in ("lt", "le", "eq") and s.args[0].sort != "B":
            x, y = a
            if isinstance(x, float) and math.isnan(x) or isinstance(y, float) and math.isnan(y):
                val[s] = False
            elif s.args[0].sort in "IK":
                val[s] = {"lt": lambda: x < y, "le": lambda: x <= y, "eq": lambda: x == y}[op]()
            else:
                e = tol * (1 + abs(x) + abs(y)) if not (math.isinf(x) or math.isinf(y)) else 0.0
                if op == "eq":
                    d = abs(x - y) if x != y else 0.0
                    val[s] = True if d <= e else (False if d > 100 * e else None)
                elif op == "lt":
                    val[s] = True if x < y - e else (False if x > y + e else None)
                else:
                    val[s] = True if x <= y + e * 1e-3 or x == y else (False if x > y + e else None)
                    if val[s] is True and x > y - e and x != y:
                        val[s] = None
        elif op == "eq":
            x, y = a
            val[s] = None if x is None or y is None else x == y
        elif op == "and":
            val[s] = False if any(x is False for x in a) else (None if any(x is None for x in a) else True)
        elif op == "or":
            val[s] = True if any(x is True for x in a) else (None if any(x is None for x in a) else False)
        elif op == "not":
            val[s] = None if a[0] is None else not a[0]
        elif op == "imp":
            x, y = a
            val[s] = True if x is False or y is True else (False if x is True and y is False else None)
        elif op == "ite":
            c, x, y = a
            val[s] = (x if x == y else None) if c is None else (x if c else y)
        else:
            raise AssertionError(op)
    return val[t]


class _U:
    pass


_UNDEC = _U()


def _close(x, y, tol):
    try:
        return abs(x - y) <= tol * (1 + abs(x) + abs(y))
    except TypeError:
        return False


# ------------------------------------------------------------------ running one harness
class Run:
    def __init__(self, h: H, tier, seed, budget):
        self.h, self.tier, self.seed = h, tier, seed
        self.rng = np.random.default_rng(seed * 7919 + (hash_name(h.name) % 100003))
        self.stats = Stats()
        self.client, self.hung, self.searched = None, None, 0
        self.names = list(h.inputs)
        self.specs = [h.inputs[n] for n in self.names]
        self.deadline = time.time() + budget
        self.res = dict(harness=h.name, bounds=h.bounds, claims=[], status="ok", violations=[], undecided=[],
                        paths=0, terms=0, diff_points=0, assumption_witness=None, notes=[])

    def sym_inputs(self):
        return [mkvars(n, s) for n, s in zip(self.names, self.specs)]

    # ---- concrete side
    def conc_call(self, env):
        """call the real code on concrete values; returns (outputs, raised)"""
        if self.h.isolate and os.environ.get("VERIF_ISOLATED") != "1":
            from . import isolate
            if self.hung:
                return None, self.hung
            if self.client is None:
                self.client = isolate.Client(self.h.isolate, self.h.name)
            try:
                return self.client.ask(env, {k: p.to_json() for k, p in opaque.CONCRETE.items() if hasattr(p, "to_json")}), None
            except Exception as e:
                if isinstance(e, TimeoutError):
                    self.hung = e
                return None, e
        vals = []
        for n, s in zip(self.names, self.specs):
            if s.kind == "K":
                vals.append(jax.random.key(int(env.get(n, 0))))
                continue
            a = np.empty(s.shape, dtype={"R": np.float64, "I": np.int64, "B": np.bool_}[s.kind])
            for i in np.ndindex(*s.shape):
                nm = n + ("" if not s.shape else "[" + ",".join(map(str, i)) + "]")
                a[i] = env[nm]
            vals.append(jnp.asarray(a))
        try:
            out = self.h.fn(ns(self.names, vals))
            return out, None
        except Exception as e:
            return None, e

    def funs(self):
        return {k: (lambda d, a, p=p: p.d(d, a)) for k, p in opaque.CONCRETE.items() if hasattr(p, "d")}

    def random_env(self):
        env = {}
        if self.h.sample is not None:
            given = self.h.sample(self.rng)
        else:
            given = {}
        for n, s in zip(self.names, self.specs):
            if s.kind == "K":
                env[n] = int(self.rng.integers(0, 2**31))
                continue
            for i in np.ndindex(*s.shape):
                nm = n + ("" if not s.shape else "[" + ",".join(map(str, i)) + "]")
                if n in given:
                    v = np.asarray(given[n])[i] if s.shape else given[n]
                    env[nm] = bool(v) if s.kind == "B" else int(v) if s.kind == "I" else float(v)
                elif s.kind == "B":
                    env[nm] = bool(self.rng.integers(0, 2))
                elif s.kind == "I":
                    env[nm] = int(self.rng.integers(s.lo, s.hi + 1))
                else:
                    lo = float(s.lo) if s.lo is not None else (-2.0 if s.hi is None else float(s.hi) - 3.0)
                    hi = float(s.hi) if s.hi is not None else lo + (4.0 if s.lo is None else 3.0)
                    v = round(float(self.rng.uniform(lo, hi)), 4)
                    if (s.lo_strict and v <= lo) or v < lo:
                        v = lo + 0.01
                    if (s.hi_strict and v >= hi) or v > hi:
                        v = hi - 0.01
                    env[nm] = v
        return env

    def good_env(self, assume, tries=3000):
        for _ in range(tries):
            env = self.random_env()
            if not assume or all(tri(a, env, self.funs(), 1e-12) is not False for a in assume):
                return env
        return None

    def set_random_opaques(self):
        opaque.CONCRETE.clear()
        for n, k in self.opq.items():
            if n in self.h.concrete:
                opaque.CONCRETE[n] = self.h.concrete[n]
            else:
                opaque.CONCRETE[n] = opaque.random_poly(self.rng, k, 3 if k <= 4 else 2)

    def run(self):
        h, res = self.h, self.res
        t0 = time.time()
        try:
            self._run()
        except (Unsupported, TooBig, RecursionError) as e:
            res["status"] = "undecided"
            res["undecided"].append(dict(label="*", reason=f"{type(e).__name__}: {e}"[:300]))
        except trace._NONTRACE as e:
            res["status"] = "undecided"
            res["undecided"].append(dict(label="*", reason="not traceable: " + str(e)[:300]))
        except Exception as e:
            res["status"] = "undecided"
            res["undecided"].append(dict(label="*", reason=f"internal {type(e).__name__}: {e}"[:300], tb=traceback.format_exc()[-1500:]))
        finally:
            opaque.CONCRETE.clear()
            if self.client is not None:
                self.client.close()
        res["solver"] = self.stats.as_dict()
        res["smt_samples"] = self.stats.samples
        res["functions"] = sorted(trace.FUNCTIONS)
        res["wall_s"] = round(time.time() - t0, 2)
        return res

    def _run(self):
        h, res = self.h, self.res
        opaque.CONCRETE.clear()
        opaque.ARITY.clear()
        sym = self.sym_inputs()
        avals = [aval(s) for s in self.specs]

        def call(*flat):
            return h.fn(ns(self.names, flat))

        paths = trace.explore(call, avals)
        self.opq = dict(opaque.ARITY)
        inp = ns(self.names, [unwrap(a) for a in sym])
        assume = [a for a in flatten(h.assume(inp)) if a is not tm.TRUE]
        smap = h.subst(inp) if h.subst is not None else {}
        # equations used as substitutions are assumptions of the statement
        assume += [tm.eq(k, v) for k, v in smap.items()]
        self.assume = assume
        self.smap = smap
        res["paths"] = len(paths)
        rules = h.rules(inp)

        evaluated = []
        for p in paths:
            ctx = interp.Ctx(h.while_bound)
            if smap and not h.diff:
                ctx.app_subst = smap   # evaluate with the assumed values in place: 0/0 then shows
            flat = interp.eval_closed(ctx, p.jaxpr, list(sym))
            conds = [interp.to_obj(c)[()] for c in flat[:p.nconds]]
            pc = [c if d else tm.not_(c) for c, d in zip(conds, p.decisions)]
            outs = [interp.to_obj(x) for x in flat[p.nconds:]]
            evaluated.append((p, ctx, pc, outs))
            res["terms"] += len(tm.subterms([t for o in outs for t in o.reshape(-1)] + pc)) if (outs or pc) else 0
            for b in ctx.bounds:
                if b not in res["notes"]:
                    res["notes"].append(b)

        # --- satisfiability of the assumptions (no vacuous proofs)
        self.set_random_opaques()
        witness = self.good_env(assume)
        if witness is None:
            pr = Prover(assume, rules, h.axioms, self.stats, 10, 10)
            r, m = pr.query(assume, 20, "struct", purpose="feas")
            if r == "unsat":
                res["status"] = "undecided"
                res["undecided"].append(dict(label="*", reason="assumptions are unsatisfiable"))
                return
            res["assumption_witness"] = "solver: " + r
        else:
            res["assumption_witness"] = {k: v for k, v in list(witness.items())[:12]}

        # --- differential validation of the encoding against the real code
        if h.diff and witness is not None:
            self.validate(evaluated, assume)
            if res["status"] != "ok":
                return

        # --- the claims
        for k, (p, ctx, pc, outs) in enumerate(evaluated):
            hyps = assume + ctx.assumptions + pc
            if smap:
                hyps = [x for x in tm.subst(hyps, smap) if x is not tm.TRUE]
            if any(x is tm.FALSE for x in hyps):
                continue
            pr = Prover(hyps, rules, h.axioms, self.stats,
                        h.t_quick or (3.0 if self.tier == "quick" else 6.0),
                        h.t_full or (20.0 if self.tier == "quick" else 120.0), self.deadline)
            pr.saturate = h.saturate
            if p.raised is not None:
                if h.raises is not None and h.raises(p.raised.exc):
                    continue
                items = [(f"raises {type(p.raised.exc).__name__}", tm.FALSE)]
                o = None
            else:
                o = jax.tree_util.tree_unflatten(p.treedef, [unwrap(x) for x in outs])
                inp.ctx = ctx
                inp.raised = None
                items = claims_of(h, inp, o)
            if smap:
                items = [(l, tm.subst([c], smap)[0]) for l, c in items]
            for label, c in items:
                self.decide(pr, label, c, p, k)

    def validate(self, evaluated, assume):
        h, res = self.h, self.res
        for _ in range(h.ndiff):
            self.set_random_opaques()
            env = self.good_env(assume)
            if env is None:
                return
            out, exc = self.conc_call(env)
            f = self.funs()
            if any(n in h.concrete for n in self.opq):
                # stub with a non-polynomial stand-in: evaluate it through its own callable
                for n in self.opq:
                    if n in h.concrete:
                        c = h.concrete[n]
                        f[n] = (lambda d, a, c=c: float(c(jnp.asarray(a))) if not d else float("nan"))
            env0 = env
            for p, ctx, pc, outs in evaluated:
                env = interp.fill_random(ctx, env0) if ctx.rand or ctx.perm_cache else env0
                pcv = [bool(v) for v in tm.neval(pc, env, f)] if pc else []
                if not all(pcv):
                    continue
                if ctx.assumptions and ctx.rand and not all(tm.neval(ctx.assumptions, env, f)):
                    continue   # beyond the unrolling bound
                if p.raised is not None:
                    if exc is None:
                        self.mismatch(env, "traced path raises, concrete run does not")
                    continue
                if exc is not None:
                    # the real code fails on an admissible input
                    if h.raises is None or not h.raises(exc):
                        self.violation("raises", env, f"{type(exc).__name__}: {exc}", None)
                    continue
                leaves = jax.tree_util.tree_leaves(out)
                if len(leaves) != len(outs):
                    self.mismatch(env, "different output structure")
                    continue
                for l, o in zip(leaves, outs):
                    if hasattr(l, "dtype") and jax.dtypes.issubdtype(l.dtype, jax.dtypes.prng_key):
                        if l.shape != o.shape or any((np.asarray(jax.random.key_data(l[i])) != np.asarray(jax.random.key_data(interp.conc_key(o[i], env)))).any() for i in np.ndindex(*o.shape)):
                            self.mismatch(env, "different keys")
                        continue
                    l = np.asarray(l)
                    if l.shape != o.shape:
                        self.mismatch(env, f"shape {l.shape} vs {o.shape}")
                        continue
                    v = tm.neval(list(o.reshape(-1)), env, f)
                    for x, y in zip(l.reshape(-1), v):
                        x, y = float(x), float(y)
                        if math.isnan(x) or math.isnan(y) or math.isinf(x) or math.isinf(y):
                            if not (math.isnan(x) and (math.isnan(y) or math.isinf(y)) or x == y or math.isinf(x) and math.isnan(y)):
                                self.mismatch(env, f"{x} vs {y}")
                        elif abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)):
                            self.mismatch(env, f"{x} vs {y}")
                res["diff_points"] += 1
                break

    def mismatch(self, env, what):
        self.res["status"] = "undecided"
        if self.h.replay is None and not self.h.axioms and not self.h.rules and not self.res["violations"]:
            # the real code may simply be wrong at this input
            try:
                r = self.check_concrete(env)
            except Exception:
                r = None
            if r is not None:
                self.violation(r[0], env, r[1], dict(opaque.CONCRETE))
        self.res["undecided"].append(dict(label="*", reason="encoding disagrees with the real code: " + what, env=env))

    # ---- deciding one claim
    def decide(self, pr, label, c, p, k):
        res = self.res
        c = tm.lift(c)
        if time.time() > self.deadline:
            res["undecided"].append(dict(label=label, reason="time budget exhausted"))
            return
        t0 = time.time()
        v = pr.prove(c)
        if v.status == "proved":
            res["claims"].append((label, "proved", round(time.time() - t0, 2)))
            return
        if v.status == "refuted":
            if self.confirm(pr, v, label):
                res["claims"].append((label, "violated", round(time.time() - t0, 2)))
                return
            res["undecided"].append(dict(label=label, reason="solver counterexample did not reproduce on the real code: " + v.reason))
            return
        # unknown: slices
        n = self.slices(pr, label, c)
        if n != "violated" and self.h.replay is None and not self.h.axioms and not self.h.rules and self.search(label):
            n = "violated"
        if n == "violated":
            res["claims"].append((label, "violated", round(time.time() - t0, 2)))
            return
        if n:
            res["claims"].append((label, f"proved on {n} slices", round(time.time() - t0, 2)))
            res["undecided"].append(dict(label=label, reason=f"{v.reason}; decided on {n} slices only"))
        else:
            res["undecided"].append(dict(label=label, reason=v.reason))

    def search(self, label, tries=60, limit=10.0):
        """no verdict of the solver: look for a concrete violation in the real code (finding none proves nothing)"""
        tend = time.time() + limit
        for _ in range(tries):
            if time.time() > tend or self.searched > 240:
                break
            self.searched += 1
            try:
                self.set_random_opaques()
                env = self.good_env(self.assume, 50)
                r = None if env is None else self.check_concrete(env)
            except Exception:
                return False
            if r is not None and r[0] in (label, "raises"):
                self.violation(r[0], env, r[1], dict(opaque.CONCRETE))
                return True
        return False

    def env_from_model(self, model):
        env = {}
        for n, s in zip(self.names, self.specs):
            if s.kind == "K":
                env[n] = 0
                continue
            for i in np.ndindex(*s.shape):
                nm = n + ("" if not s.shape else "[" + ",".join(map(str, i)) + "]")
                v = model["env"].get(nm)
                if v is None:
                    if s.kind == "B":
                        v = False
                    elif s.kind == "I":
                        v = s.lo
                    else:
                        lo, hi = s.lo, s.hi
                        v = 0.5 if lo is None and hi is None else (float(lo) + 0.5 if hi is None else (float(hi) - 0.5 if lo is None else (float(lo) + float(hi)) / 2))
                env[nm] = bool(v) if s.kind == "B" else int(v) if s.kind == "I" else float(v)
        return env

    def install_opaques(self, model, env, generic=False):
        try:
            return self.install_opaques_(model, env, generic)
        except (OverflowError, np.linalg.LinAlgError):
            return False  # values of the model out of the range of floats

    def install_opaques_(self, model, env, generic=False):
        """concrete polynomials agreeing with the model's values of the user functions"""
        opaque.CONCRETE.clear()
        apps = {t: float(v) for t, v in model["apps"] if t.sort == "R" and v is not None}
        tables = {n: [] for n in self.opq}
        full = dict(model["env"])
        full = {k: float(v) if not isinstance(v, bool) else v for k, v in full.items()}
        full.update(env)
        for t, v in getattr(self, "smap", {}).items():
            try:
                apps[t] = float(tm.neval([v], _Default(full), None, fixed=apps)[0])
            except Exception:
                pass
        for t, v in apps.items():
            name, d = t.val
            if name not in tables:
                continue
            try:
                pt = tm.neval(list(t.args), _Default(full), None, fixed=apps)
            except Exception:
                continue
            if any(isinstance(z, float) and math.isnan(z) for z in pt):
                continue
            tables[name].append((pt, d, v))
        for n, k in self.opq.items():
            if n in self.h.concrete:
                opaque.CONCRETE[n] = self.h.concrete[n]
                continue
            # merge duplicates
            tab, seen = [], set()
            for pt, d, v in tables[n]:
                key = (tuple(round(x, 9) for x in pt), d)
                if key not in seen:
                    seen.add(key)
                    tab.append((pt, d, v))
            base = opaque.random_poly(self.rng, k, 3) if generic else None
            p = opaque.fit([(pt, d, v - base.d(d, pt)) for pt, d, v in tab] if generic else tab, k)
            if p is None:
                return False
            opaque.CONCRETE[n] = opaque.Poly(p.terms + base.terms) if generic else p
        return True

    def check_concrete(self, env, want_label=None):
        """evaluate the claims on the outputs of the real code"""
        if any(isinstance(x, float) and x and not 1e-6 < abs(x) < 1e6 for x in env.values()):
            return None  # rounding and overflow are outside of the claims
        h = self.h
        f = self.funs()
        for n in self.opq:
            if n in h.concrete:
                c = h.concrete[n]
                f[n] = (lambda d, a, c=c: float(c(jnp.asarray(a))) if not d else float("nan"))
        for a in self.assume:
            if tri(a, env, f, 1e-9) is False:
                return None
        for s, v in env_vars(self, env):
            i = tm._var_info.get(s)
            if i:
                if i["lo"] is not None and (v < float(i["lo"]) or (i["lo_strict"] and v <= float(i["lo"]))):
                    return None
                if i["hi"] is not None and (v > float(i["hi"]) or (i["hi_strict"] and v >= float(i["hi"]))):
                    return None
        out, exc = self.conc_call(env)
        if exc is not None:
            if h.raises is not None and h.raises(exc):
                return None
            return ("raises", f"{type(exc).__name__}: {exc}"[:500])
        leaves, tree = jax.tree_util.tree_flatten(out)
        e2 = dict(env)
        ov = []
        for j, l in enumerate(leaves):
            l = np.asarray(l) if not (hasattr(l, "dtype") and jax.dtypes.issubdtype(l.dtype, jax.dtypes.prng_key)) else None
            if l is None:
                return None
            a = np.empty(l.shape, dtype=object)
            for i in np.ndindex(*l.shape):
                nm = f"out!{j}{list(i)}"
                if l.dtype == np.bool_:
                    a[i] = tm._mk("var", (), nm, "B")
                    e2[nm] = bool(l[i])
                elif np.issubdtype(l.dtype, np.integer):
                    a[i] = tm._mk("var", (), nm, "I")
                    e2[nm] = int(l[i])
                else:
                    a[i] = tm._mk("var", (), nm, "R")
                    e2[nm] = float(l[i])
            ov.append(unwrap(a))
        o = jax.tree_util.tree_unflatten(tree, ov)
        inp = ns(self.names, [unwrap(a) for a in self.sym_inputs()])
        inp.ctx = None
        inp.raised = None
        for label, c in claims_of(h, inp, o):
            r = tri(tm.lift(c), e2, f, h.tol)
            if r is False:
                return (label, tm.to_str(tm.lift(c), 4)[:300])
        return None

    def confirm(self, pr, v, label):
        h = self.h
        if h.replay is not None:
            model = v.model
            try:
                r = h.replay(self, model, label)
            except Exception as e:
                r = None
                self.res["notes"].append(f"replay failed: {type(e).__name__}: {e}"[:200])
            if r:
                self.violation(label, r.get("env", {}), r.get("what", ""), None)
                return True
            return False
        boxes = h.margin_boxes or ((4, "1/8"), (10, "1/1000"))
        tried = []
        for model in pr.models(v.leaf, boxes):
            for fix in (True, False):
                env = self.env_from_model(model)
                if fix:
                    for k2, x in model["fixes"].items():
                        if k2 in env:
                            env[k2] = x
                elif not model["fixes"]:
                    continue
                tried.append(env)
                # functions through the model's values: of least degree, and generic ones
                for generic in (False, True) if self.opq else (False,):
                    if not self.install_opaques(model, env, generic):
                        continue
                    r = self.check_concrete(env)
                    if r is not None:
                        self.violation(r[0] if r[0] == "raises" else label, env, r[1], dict(opaque.CONCRETE))
                        return True
        # local search for a representable witness near the solver's model and at random
        for n in range(400):
            if time.time() > self.deadline + 20:
                break
            self.set_random_opaques()
            if tried and n % 2 == 0:
                base = tried[n // 2 % len(tried)]
                env = {k2: (x + float(self.rng.normal()) * 0.1 * (1 + abs(x)) if isinstance(x, float) else x) for k2, x in base.items()}
            else:
                env = self.random_env()
                if n % 4 == 1:
                    env = {k2: float(self.rng.choice([-1.0, 0.0, 0.5, 1.0, 2.0])) if isinstance(x, float) else x for k2, x in env.items()}
            r = self.check_concrete(env)
            if r is not None:
                self.violation(label if r[0] != "raises" else r[0], env, r[1], dict(opaque.CONCRETE))
                return True
        if h.cover is not None:
            what = h.cover()
            if what:
                self.violation(label, {}, what, None)
                return True
        return False

    def slices(self, pr, label, c):
        """the solver could not decide the claim for all values at once: decide
        it on slices where some inputs are fixed to concrete rationals"""
        done = 0
        extra = 12 if self.tier == "quick" else 60
        tend = time.time() + extra
        old = pr.deadline, pr.t_quick, pr.t_full
        pr.deadline = min(tend, self.deadline + extra)
        pr.t_quick, pr.t_full = 1.0, 3.0
        try:
            for rnd in range(6):
                if time.time() > tend:
                    break
                self.set_random_opaques()
                env = self.good_env(self.assume, 300)
                if env is None:
                    break
                vs = [s for s in tm.subterms([c] + self.assume) if s.op == "var" and s.sort == "R" and s.val in env]
                if not vs:
                    break
                self.rng.shuffle(vs)
                for free in sorted({max(1, len(vs) // 2), 2, 1}, reverse=True):
                    if free >= len(vs):
                        continue
                    mp = {s: tm.const(Fraction(str(round(env[s.val], 3)))) for s in vs[free:]}
                    new = tm.subst([c] + pr.hyps, mp)
                    p2 = Prover([x for x in new[1:] if x is not tm.TRUE], (), pr.axioms, self.stats, pr.t_quick, pr.t_full, pr.deadline)
                    bnd = [x for s in mp for x in []]
                    if any(x is tm.FALSE for x in new[1:]):
                        continue
                    v = p2.prove(new[0])
                    if v.status == "proved":
                        done += 1
                        break
                    if v.status == "refuted":
                        for model in p2.models(v.leaf):
                            for s in mp:
                                model["env"][s.val] = mp[s].val
                            e = self.env_from_model(model)
                            for k2, x in model["fixes"].items():
                                if k2 in e:
                                    e[k2] = x
                            if self.install_opaques(model, e):
                                r = self.check_concrete(e)
                                if r is not None:
                                    self.violation(label, e, r[1], dict(opaque.CONCRETE))
                                    return "violated"
                        break
        except TimeoutError:
            pass
        finally:
            pr.deadline, pr.t_quick, pr.t_full = old
        return done

    def violation(self, label, env, what, polys):
        self.res["violations"].append(dict(label=label, env={k: v for k, v in env.items()}, what=what,
                                           opaques={k: p.to_json() for k, p in (polys or {}).items() if hasattr(p, "to_json")}))


class _Default(dict):
    def __missing__(self, k):
        return 0.0


def env_vars(run, env):
    for n, s in zip(run.names, run.specs):
        if s.kind in "RI":
            for i in np.ndindex(*s.shape):
                nm = n + ("" if not s.shape else "[" + ",".join(map(str, i)) + "]")
                yield nm, env[nm]


def hash_name(s):
    import zlib
    return zlib.crc32(s.encode())


def flatten(x):
    out = []
    if isinstance(x, T):
        return [x]
    if isinstance(x, (bool, np.bool_)):
        return [tm.boolc(bool(x))]
    if isinstance(x, np.ndarray):
        return flatten(list(x.reshape(-1)))
    for y in x:
        out += flatten(y)
    return out


def claims_of(h, inp, o):
    """the claims on these outputs; outputs which do not even have the stated
    structure violate the statement"""
    try:
        return flatten_claims(h.claim(inp, o))
    except (IndexError, ValueError, TypeError, AttributeError, KeyError) as e:
        return [(f"outputs have the stated structure ({type(e).__name__}: {e})"[:160], tm.FALSE)]


def flatten_claims(x):
    out = []
    for label, c in x:
        fl = flatten(c)
        if len(fl) == 1:
            out.append((label, fl[0]))
        else:
            out.append((label, tm.and_(*fl)))
    return out


# ------------------------------------------------------------------ helpers for property statements
def _b(f):
    def g(a, b):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        a, b = np.broadcast_arrays(a, b)
        return [f(tm.lift(x), tm.lift(y)) for x, y in zip(a.reshape(-1), b.reshape(-1))]

    return g


def _eq(x, y):
    # equal terms stay a claim, so that the solver is asked about them as well
    return tm._mk("eq", (x, y), None, "B") if x is y else tm.eq(x, y)


EQ = _b(_eq)
LE = _b(tm.le)
LT = _b(tm.lt)


def SAME(a, b):
    """equal shape and equal entries"""
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if a.shape != b.shape:
        return [tm.FALSE]
    return EQ(a, b)


def AND(*xs):
    return tm.and_(*flatten(xs))


def OR(*xs):
    return tm.or_(*flatten(xs))


def NOT(x):
    return tm.not_(x)


def IMP(a, b):
    return tm.implies(AND(a), AND(b))


def IFF(a, b):
    return tm.eq(AND(a), AND(b))


def ABS(x):
    return tm.abs_(x)


def SQRT(x):
    return tm.sqrt(tm.lift(x))


def NEAR(a, b, tol):
    """|a-b| <= tol"""
    d = tm.lift(a) - tm.lift(b)
    return tm.and_(tm.le(d, tm.const(Fraction(tol))), tm.le(tm.neg(d), tm.const(Fraction(tol))))


def CAN(i, cond):
    """the solver finds random draws with this outcome (reachability; true on concrete runs)"""
    if getattr(i, "ctx", None) is None:
        return tm.TRUE
    cond = tm.lift(cond)
    pr = Prover([], [], {}, Stats(), 5, 5)
    r, _ = pr.query(list(i.ctx.assumptions) + [cond], 5.0, "struct", purpose="feas")
    return tm.boolc(r != "unsat")


def sumsq(x):
    return tm.add(tm.ZERO, *[t * t for t in np.asarray(x, dtype=object).reshape(-1)])


def dot(a, b):
    return tm.add(tm.ZERO, *[x * y for x, y in zip(np.asarray(a, dtype=object).reshape(-1), np.asarray(b, dtype=object).reshape(-1))])


def crossp(a, b):
    return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=object)


def app(name, args, deriv=()):
    return tm.app(name, tuple(args), "R", tuple(sorted(deriv)))


def sin(x):
    return tm.fn("sin", x)


def cos(x):
    return tm.fn("cos", x)


def exp(x):
    return tm.fn("exp", x)


def oarr(x):
    return np.array(x, dtype=object)
