"""Runner of one property: python -m engine.run C01 [--tier quick|thorough] [--only substr] [--serial]"""
from __future__ import annotations
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MAGPI_REPO", "/repo")


def _init():
    os.environ["JAX_PLATFORMS"] = "cpu"
    os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
    os.environ["OMP_NUM_THREADS"] = "1"
    sys.path.insert(0, REPO)
    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    import jax

    jax.config.update("jax_enable_x64", True)


def load(pid):
    _init()
    m = importlib.import_module(f"checks.{pid}")
    hs = m.harnesses() if callable(getattr(m, "harnesses", None)) else m.HARNESSES
    return m, hs


_cache = {}


def work(job):
    pid, name, tier, seed, budget = job
    t0 = time.time()
    try:
        if pid not in _cache:
            _cache[pid] = load(pid)
        m, hs = _cache[pid]
        from engine import harness

        h = next(x for x in hs if x.name == name)
        return harness.Run(h, tier, seed, h.budget or budget).run()
    except Exception as e:
        import traceback

        return dict(harness=name, status="undecided", violations=[], claims=[], bounds="", notes=[], paths=0, terms=0,
                    diff_points=0, assumption_witness=None, functions=[], smt_samples=[],
                    undecided=[dict(label="*", reason=f"harness error {type(e).__name__}: {e}"[:300], tb=traceback.format_exc()[-1500:])],
                    solver={}, wall_s=time.time() - t0)


def names(pid, tier):
    try:
        m, hs = load(pid)
    except Exception as e:
        import traceback
        traceback.print_exc()
        return None, None
    return [h.name for h in hs if tier == "thorough" or h.tier == "quick"], getattr(m, "INFO", {})


def known(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--serial", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    ns, info = names(a.pid, tier)
    total = 600 if tier == "quick" else 6 * 3600
    per = 150 if tier == "quick" else 1500
    results = []
    if ns is None:
        # the code under verification cannot even be imported
        print(f"check {a.pid}: harnesses could not be loaded", flush=True)
        ns = []
        results.append(dict(harness="import", status="undecided", violations=[], claims=[], bounds="", notes=[], paths=0,
                            terms=0, diff_points=0, assumption_witness=None, functions=[], smt_samples=[],
                            undecided=[dict(label="*", reason="import failed")], solver={}, wall_s=0))
        info = {}
    if a.only:
        ns = [n for n in ns if a.only in n]
    jobs = [(a.pid, n, tier, seed, per) for n in ns]
    if a.serial:
        for j in jobs:
            results.append(work(j))
            if a.v:
                show(results[-1])
    elif jobs:
        ctx = mp.get_context("spawn")
        with ctx.Pool(min(8, len(jobs))) as pool:
            pend = [(j, pool.apply_async(work, (j,))) for j in jobs]
            for j, r in pend:
                left = total - (time.time() - t0)
                try:
                    results.append(r.get(timeout=max(1, left)))
                except mp.TimeoutError:
                    results.append(dict(harness=j[1], status="undecided", violations=[], claims=[], bounds="", notes=[], paths=0,
                                        terms=0, diff_points=0, assumption_witness=None, functions=[], smt_samples=[],
                                        undecided=[dict(label="*", reason="time budget of the check exhausted")], solver={}, wall_s=0))
                if a.v:
                    show(results[-1])
            pool.terminate()
    rc = report(a.pid, tier, seed, results, info, time.time() - t0, a.no_evidence)
    sys.exit(rc)


def show(r):
    s = r.get("solver", {})
    print(f"[{r['harness']}] {r['status']} wall={r.get('wall_s', 0):.1f}s paths={r['paths']} terms={r['terms']} diff={r['diff_points']} "
          f"claims={len(r['claims'])} q={s.get('queries')} unsat={s.get('unsat')} nf={s.get('closed_by_normal_form')} "
          f"feas={s.get('feasibility_queries')} t={s.get('solver_time_s')}")
    for c in r["claims"]:
        if c[1] != "proved" or c[2] > 5:
            print("    claim", c)
    for u in r["undecided"]:
        print("    UNDECIDED", u["label"], u["reason"], u.get("env", ""))
        if "tb" in u:
            print(u["tb"])
    for v in r["violations"]:
        print("    VIOLATED", v["label"], v["what"], v["env"])
    for n in r["notes"]:
        print("    note", n)
    sys.stdout.flush()


def report(pid, tier, seed, results, info, wall, no_evidence=False):
    kf = known(pid)
    viol = []
    for r in results:
        for v in r["violations"]:
            k = next((d for d in kf if d["harness"] == r["harness"] and d["label"] == v["label"]), None)
            if k is not None:
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
            else:
                viol.append((r, v))
    agg = dict(queries=0, unsat=0, sat=0, unknown=0, feasibility_queries=0, closed_by_normal_form=0, closed_by_rewriting=0,
               solver_time_s=0.0)
    by = {}
    maxq = 0
    for r in results:
        s = r.get("solver") or {}
        for k in agg:
            agg[k] += s.get(k, 0) or 0
        maxq = max(maxq, s.get("max_query_s", 0) or 0)
        for k, n in (s.get("by_solver") or {}).items():
            by[k] = by.get(k, 0) + n
    agg["solver_time_s"] = round(agg["solver_time_s"], 2)
    claims = sum(len(r["claims"]) for r in results)
    proved = sum(1 for r in results for c in r["claims"] if c[1] == "proved")
    und = [dict(harness=r["harness"], label=u["label"], reason=u["reason"]) for r in results for u in r["undecided"]]
    funcs = sorted({f for r in results for f in r.get("functions", [])})
    samples = []
    for r in results:
        for s in r.get("smt_samples", []):
            if len(samples) < 3:
                samples.append(dict(harness=r["harness"], **s))
    hs = [dict(name=r["harness"], bounds=r["bounds"], status=r["status"], paths=r["paths"], terms=r["terms"],
               claims=[list(c) for c in r["claims"]], differential_points=r["diff_points"],
               assumptions_satisfied_at=r["assumption_witness"], notes=r["notes"], wall_s=r.get("wall_s")) for r in results]
    ev = dict(property=pid, tier=tier, seed=seed, level="other",
              coverage=dict(
                  explanation=("Bounded symbolic execution of the real code: the functions listed under functions_encoded were traced from "
                               "/repo's working tree to JAX's IR on this run, executed over symbolic reals/integers/booleans, and each "
                               "claim was decided for all values within the stated bounds by z3/cvc5 (identities whose normal form is "
                               "literally equal are closed before the solver and counted separately). " + info.get("explanation", "")),
                  claims=claims, claims_proved=proved, undecided=und, functions_encoded=funcs, harnesses=hs,
                  evaluations=claims, queries=agg, max_query_s=maxq, answers_by_solver=by,
                  bounds=info.get("bounds", ""), outside_bounds=info.get("outside", ""), samples=samples or [dict(note="no solver query text kept on this run")],
                  differential_validation_points=sum(r["diff_points"] for r in results)),
              assumptions=["floating point values are exact reals; constants are read as the rationals / multiples of pi they stand for",
                           "0*x = 0 also where x is not finite",
                           "JAX tracing (make_jaxpr) represents the Python code; XLA implements the primitives as documented"] + info.get("assumptions", []),
              wall_s=round(wall, 2), violations=len(viol))
    if not no_evidence:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    rc = 0
    for n, (r, v) in enumerate(viol):
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{pid}_{n}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, harness=r["harness"], **v), f, indent=1, default=str)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  harness: {r['harness']}; claim: {v['label']}; {v['what']}")
        print(f"  input: { {k: x for k, x in list(v['env'].items())[:20]} }")
        print(f"  reproduce: /verif/check replay {path}")
        rc = 1
    for u in und:
        print(f"UNDECIDED {pid} [{u['harness']}] {u['label']}: {u['reason']}")
    print(f"{pid} {tier}: {claims} claims in {len(results)} harnesses, {proved} proved for all values within bounds, "
          f"{len(viol)} violated, {len(und)} undecided; {agg['queries']} solver queries ({agg['unsat']} unsat), "
          f"{agg['closed_by_normal_form']} by normal form, solver {agg['solver_time_s']}s, wall {wall:.1f}s")
    return rc


if __name__ == "__main__":
    main()
