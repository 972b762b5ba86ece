"""python -m engine.replay FILE: run a recorded counterexample on the real code again"""
import json
import sys


def main(path):
    d = json.load(open(path))
    from . import run

    m, hs = run.load(d["property"])
    from . import harness, opaque, trace
    import jax

    h = next(x for x in hs if x.name == d["harness"])
    r = harness.Run(h, "quick", 1, 60)
    print(f"property {d['property']}, harness: {h.name}\nclaim: {d['label']}\nrecorded: {d['what']}")
    print("input:", json.dumps(d["env"], indent=1))
    if not d["env"] and h.cover is not None:
        w = h.cover()
        print("real code:", w or "no violation")
        return 1 if w else 0
    opaque.CONCRETE.clear()
    opaque.ARITY.clear()
    try:
        trace.explore(lambda *flat: h.fn(harness.ns(r.names, flat)), [harness.aval(s) for s in r.specs])
    except Exception:
        pass
    r.opq = dict(opaque.ARITY)
    opaque.CONCRETE.clear()
    for k, j in (d.get("opaques") or {}).items():
        opaque.CONCRETE[k] = opaque.Poly.from_json(j)
        r.opq.setdefault(k, 1)
    opaque.CONCRETE.update(h.concrete)
    inp = harness.ns(r.names, [harness.unwrap(a) for a in r.sym_inputs()])
    r.assume = [a for a in harness.flatten(h.assume(inp))]
    out, exc = r.conc_call(d["env"])
    print("output of the real code:", out if exc is None else f"{type(exc).__name__}: {exc}")
    w = r.check_concrete(d["env"])
    print("violated:" if w else "no violation", w or "")
    return 1 if w else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
