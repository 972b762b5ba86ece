"""R-functions implement set logic on signs."""
from .common import *
from magpi import r_fun
from magpi.r_fun import RAlpha, RAlphaM, RP, RhoBlending, r0, r1, rp2, rp4, compose

INFO = dict(
    bounds="two (compound operations: two, composition: up to eight) real arguments of any value; alpha symbolic in (-1,1]; m in 0..4; p in {2,4,6}; rho symbolic > 0",
    outside="p > 6, m > 4 or fractional m; more than eight operands of one composition",
    assumptions=["the compound operations are decided for an arbitrary R-system of which only the sign contract is assumed; that contract is decided for every concrete system"])


def sign_logic(i, o):
    a, b = i.a, i.b
    c, d = o["c"], o["d"]
    return (sgn_claims("conjunction", c, AND(P(a), P(b)), OR(N(a), N(b)))
            + sgn_claims("disjunction", d, OR(P(a), P(b)), AND(N(a), N(b)))
            + [("conjunction commutes", EQ(c, o["cs"])), ("disjunction commutes", EQ(d, o["ds"])),
               ("De Morgan", EQ(d, -o["cn"]))])


def ops(S, a, b):
    return dict(c=S.conjunction(a, b), d=S.disjunction(a, b), cs=S.conjunction(b, a), ds=S.disjunction(b, a),
                cn=S.conjunction(-a, -b))


COMPOUND = dict(
    union=lambda S, f, g: S.union(f, g), intersection=lambda S, f, g: S.intersection(f, g),
    equivalence=lambda S, f, g: S.equivalence(f, g), implication=lambda S, f, g: S.implication(f, g),
    difference=lambda S, f, g: S.difference(f, g), xor=lambda S, f, g: S.xor(f, g),
    negate=lambda S, f, g: S.negate(f))


def truth(name, a, b):
    pa, na, pb, nb = P(a), N(a), P(b), N(b)
    return dict(union=(OR(pa, pb), AND(na, nb)), intersection=(AND(pa, pb), OR(na, nb)),
                equivalence=(OR(AND(pa, pb), AND(na, nb)), OR(AND(pa, nb), AND(na, pb))),
                implication=(OR(na, pb), AND(pa, nb)), difference=(AND(pa, nb), OR(na, pb)),
                xor=(OR(AND(pa, nb), AND(na, pb)), OR(AND(pa, pb), AND(na, nb))),
                negate=(na, pa))[name]


def harnesses():
    ab = lambda **k: dict(a=Arr(), b=Arr(), **k)
    al = Arr(lo=-1, lo_strict=True, hi=1)
    out = [H("RAlpha", ab(alpha=al), lambda i: ops(RAlpha(i.alpha), i.a, i.b), sign_logic, bounds="alpha symbolic")]
    for al_c in (1.0, 0.0, 0.5, -0.5):
        out.append(H(f"RAlpha({al_c})", ab(), lambda i, q=al_c: ops(RAlpha(q), i.a, i.b), sign_logic))
    for m in (0, 1, 2, 3, 4):
        out.append(H(f"RAlphaM m={m}", ab(alpha=al), lambda i, m=m: ops(RAlphaM(m, i.alpha), i.a, i.b), sign_logic, bounds=f"m={m}, alpha symbolic"))
    for p in (2, 4, 6):
        out.append(H(f"RP({p})", ab(), lambda i, p=p: ops(RP(p), i.a, i.b), sign_logic))
    for n, S in (("r0", r0), ("r1", r1), ("rp2", rp2), ("rp4", rp4)):
        out.append(H(f"instance {n}", ab(), lambda i, S=S: ops(S, i.a, i.b), sign_logic))
    out.append(H("r1 is min and max, rp2 is r0", ab(),
                 lambda i: (r1.conjunction(i.a, i.b), r1.disjunction(i.a, i.b), rp2.conjunction(i.a, i.b),
                            r0.conjunction(i.a, i.b), rp2.disjunction(i.a, i.b), r0.disjunction(i.a, i.b)),
                 lambda i, o: [("min", EQ(o[0], tm.min_(i.a, i.b))), ("max", EQ(o[1], tm.max_(i.a, i.b))),
                               ("rp2 = r0", AND(EQ(o[2], o[3]), EQ(o[4], o[5])))]))

    def rho(i, o):
        a, b, c, d = i.a, i.b, o["c"], o["d"]
        far = a * a + b * b >= i.rho * i.rho
        s = SQRT(a * a + b * b)
        return [("blended conjunction adds nothing outside", IMP(OR(N(a), N(b)), N(c))),
                ("blended conjunction stays inside", IMP(P(c), AND(P(a), P(b)))),
                ("blended disjunction keeps the inside", IMP(OR(P(a), P(b)), P(d))),
                ("blended disjunction negative only outside", IMP(N(d), AND(N(a), N(b)))),
                ("no blending beyond rho (conjunction)", IMP(far, EQ(c, a + b - s))),
                ("no blending beyond rho (disjunction)", IMP(far, EQ(d, a + b + s))),
                ("blending rounds off only", AND(c <= a + b - s, d >= a + b + s)),
                ("commutes", AND(EQ(c, o["cs"]), EQ(d, o["ds"]))), ("De Morgan", EQ(d, -o["cn"]))]

    out.append(H("RhoBlending", ab(rho=pos()), lambda i: ops(RhoBlending(i.rho), i.a, i.b), rho, bounds="rho symbolic > 0"))

    f, g = ofun("f", 2), ofun("g", 2)
    for name, op in COMPOUND.items():
        def claim(i, o, name=name):
            a, b = app("f", i.x), app("g", i.x)
            ins, outs = truth(name, a, b)
            return sgn_claims(name, o, ins, outs)

        out.append(H(f"compound {name} of any system", dict(x=Arr(2)),
                     lambda i, op=op: op(stub_system(), ofun("f", 2), ofun("g", 2))(i.x), claim,
                     axioms=STUB_AXIOMS, concrete=STUB_CONCRETE))
        for sn, S in (("r0", r0), ("r1", r1), ("rp4", rp4), ("RAlphaM(2,0)", RAlphaM(2, 0.0))):
            if name in ("equivalence", "xor") and sn != "r1":
                continue

            def claim2(i, o, name=name):
                ins, outs = truth(name, i.a, i.b)
                return sgn_claims(name, o, ins, outs)

            out.append(H(f"{sn} {name}", ab(), lambda i, op=op, S=S: op(S, lambda x: x[0], lambda x: x[1])(jnp.stack([i.a, i.b])), claim2))

    # n-ary composition
    for k in (1, 2, 3, 4, 5, 6, 7, 8):
        for kind in ("conj", "disj"):
            def claim3(i, o, k=k, kind=kind):
                v = [app(f"h{j}", i.x) for j in range(k)]
                if kind == "conj":
                    return sgn_claims("composition", o, AND(*[P(a) for a in v]), OR(*[N(a) for a in v]))
                return sgn_claims("composition", o, OR(*[P(a) for a in v]), AND(*[N(a) for a in v]))

            def fn(i, k=k, kind=kind):
                S = stub_system()
                return compose(S.conjunction if kind == "conj" else S.disjunction)(*[ofun(f"h{j}", 2) for j in range(k)])(i.x)

            out.append(H(f"compose {kind} of {k}", dict(x=Arr(2)), fn, claim3, axioms=STUB_AXIOMS, concrete=STUB_CONCRETE))
    return out
