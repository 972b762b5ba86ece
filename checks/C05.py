"""Rigid motions, scaling, reflection, projection and revolution of ADFs."""
from .common import *
from magpi.r_fun import translate, scale, scale_without_normalization, rotate2d, rotate3d, reflect, project, revolution
from magpi.quaternions import quaternion_rotation, from_axis_angle

INFO = dict(
    bounds="any smooth ADF (uninterpreted), any point, any translation, any positive scale, any angle / Euler angles, any unit rotation axis, any nonzero plane normal, any centre; 1-3 dimensions",
    outside="more than three dimensions; rotation axes which are not unit vectors",
    assumptions=["the direction of 3-d rotations is the library's own (clockwise, as quaternion_rotation), 2-d rotations are counter-clockwise"])


def f_(n):
    return ofun("f", n)


def rot(axis, c, s):
    """right-handed rotation matrix about a coordinate axis"""
    i, j = [(1, 2), (2, 0), (0, 1)][axis]
    M = np.array([[tm.ONE if a == b else tm.ZERO for b in range(3)] for a in range(3)], dtype=object)
    M[i, i], M[j, j], M[i, j], M[j, i] = c, c, tm.neg(s), s
    return M


def harnesses():
    out = []
    for n in (1, 2, 3):
        A = lambda i, p, n=n: app("f", list(p))
        # body moved by y: the value at p + y is the original value at p
        out.append(H(f"translate {n}D", dict(x=Arr(n), y=Arr(n)), lambda i, n=n: translate(f_(n), i.y)(i.x + i.y),
                     lambda i, o, A=A: [("moved by y", EQ(o, A(i, i.x)))]))
        out.append(H(f"translate by a scalar {n}D", dict(x=Arr(n), y=Arr()), lambda i, n=n: translate(f_(n), i.y)(i.x + i.y),
                     lambda i, o, A=A: [("moved by y", EQ(o, A(i, i.x)))]))

        def scl(i, o, A=A, n=n):
            return [("scaled body, distances scale along", EQ(o[0], i.s * A(i, i.x))),
                    ("slope preserved", SAME(o[1], oarr([app("f", list(i.x), (k,)) for k in range(n)])))]

        out.append(H(f"scale {n}D", dict(x=Arr(n), s=pos()),
                     lambda i, n=n: (scale(f_(n), i.s)(i.x * i.s), jax.jacfwd(scale(f_(n), i.s))(i.x * i.s)), scl))
        out.append(H(f"scale with a one element vector {n}D", dict(x=Arr(n), s=pos(1)), lambda i, n=n: scale(f_(n), i.s)(i.x * i.s[0]),
                     lambda i, o, A=A: [("scaled", SAME(o, i.s[0] * A(i, i.x)))]))
        out.append(H(f"scale_without_normalization {n}D", dict(x=Arr(n), s=pos(n)),
                     lambda i, n=n: scale_without_normalization(f_(n), i.s)(i.x * i.s),
                     lambda i, o, A=A: [("stretched body, same values", SAME(o, A(i, i.x)))]))
        out.append(H(f"scale_without_normalization by a scalar {n}D", dict(x=Arr(n), s=pos()),
                     lambda i, n=n: scale_without_normalization(f_(n), i.s)(i.x * i.s),
                     lambda i, o, A=A: [("stretched body, same values", SAME(o, A(i, i.x)))]))
        for org in (False, True):
            def refl(i, o, n=n, org=org, A=A):
                c = list(i.o) if org else [tm.ZERO] * n
                d = [i.x[k] - c[k] for k in range(n)]
                t = dot(d, i.n) / sumsq(i.n)
                mir = [i.x[k] - 2 * t * i.n[k] for k in range(n)]
                return [("mirror image", EQ(o, A(i, mir)))]

            def prj(i, o, n=n, org=org, A=A):
                c = list(i.o) if org else [tm.ZERO] * n
                d = [i.x[k] - c[k] for k in range(n)]
                t = dot(d, i.n) / sumsq(i.n)
                p = [i.x[k] - t * i.n[k] for k in range(n)]
                return [("value at the foot point", EQ(o, A(i, p)))]

            ins = dict(x=Arr(n), n=Arr(n), **(dict(o=Arr(n)) if org else {}))
            nz = lambda i: [P(sumsq(i.n))]
            out.append(H(f"reflect {n}D origin={org}", ins, lambda i, n=n, org=org: reflect(f_(n), i.n, *([i.o] if org else []))(i.x), refl, assume=nz))
            out.append(H(f"project {n}D origin={org}", ins, lambda i, n=n, org=org: project(f_(n), i.n, *([i.o] if org else []))(i.x), prj, assume=nz))
    for org in (False, True):
        def r2(i, o, org=org):
            c = list(i.o) if org else [tm.ZERO] * 2
            dx, dy = i.x[0] - c[0], i.x[1] - c[1]
            C, S = cos(i.t), sin(i.t)
            # counter-clockwise body: pre-image of x is the clockwise rotated point
            return [("counter-clockwise about the centre", EQ(o, app("f", [c[0] + C * dx + S * dy, c[1] - S * dx + C * dy])))]

        out.append(H(f"rotate2d origin={org}", dict(x=Arr(2), t=Arr(), **(dict(o=Arr(2)) if org else {})),
                     lambda i, org=org: rotate2d(f_(2), i.t, *([i.o] if org else []))(i.x), r2))
        ins = dict(x=Arr(3), t=Arr(), n=Arr(3), **(dict(o=Arr(3)) if org else {}))

        def r3(i, o, org=org):
            c = list(i.o) if org else [tm.ZERO] * 3
            d = oarr([i.x[k] - c[k] for k in range(3)])
            C, S = cos(i.t), sin(i.t)
            nd = dot(i.n, d)
            k = crossp(i.n, d)
            # the body turns clockwise about n, so the pre-image turns counter-clockwise (Rodrigues)
            return [("turned about the axis through the centre", EQ(o, app("f", [c[j] + d[j] * C + k[j] * S + i.n[j] * nd * (1 - C) for j in range(3)])))]

        out.append(H(f"rotate3d axis-angle origin={org}", ins,
                     lambda i, org=org: rotate3d(f_(3), i.t, i.n, *([i.o] if org else []))(i.x), r3,
                     assume=lambda i: EQ(sumsq(i.n), 1), rules=lambda i: [(i.n[2], 2, 1 - i.n[0] ** 2 - i.n[1] ** 2)], sample=_unit3))

        def r3e(i, o, org=org):
            c = list(i.o) if org else [tm.ZERO] * 3
            d = oarr([i.x[k] - c[k] for k in range(3)])
            # body = Rz(-z) Ry(-y) Rx(-x) applied to the original; pre-image = the inverse
            M = rot(0, cos(i.a[0]), sin(i.a[0])) @ rot(1, cos(i.a[1]), sin(i.a[1])) @ rot(2, cos(i.a[2]), sin(i.a[2]))
            p = M @ d
            return [("turned about x, then y, then z", EQ(o, app("f", [c[k] + p[k] for k in range(3)])))]

        out.append(H(f"rotate3d euler origin={org}", dict(x=Arr(3), a=Arr(3), **(dict(o=Arr(3)) if org else {})),
                     lambda i, org=org: rotate3d(f_(3), i.a, None, *([i.o] if org else []))(i.x), r3e))
    for ax in (0, 1):
        def rv(i, o, ax=ax):
            a, b = (1, 2) if ax == 0 else (0, 2)
            r = SQRT(i.x[a] * i.x[a] + i.x[b] * i.x[b])
            return [("profile at the distance from the axis", EQ(o, app("f", [i.x[0], r] if ax == 0 else [r, i.x[1]])))]

        out.append(H(f"revolution axis={ax}", dict(x=Arr(3)), lambda i, ax=ax: revolution(f_(2), ax)(i.x), rv))
    out.append(H("revolution default axis", dict(x=Arr(3)), lambda i: revolution(f_(2))(i.x),
                 lambda i, o: [("about x", EQ(o, app("f", [i.x[0], SQRT(i.x[1] ** 2 + i.x[2] ** 2)])))]))
    # rotations and mirrors keep the boundary slope
    for nm, n, ins, fn in (
            ("rotate2d", 2, dict(t=Arr()), lambda i: rotate2d(f_(2), i.t)),
            ("rotate3d euler", 3, dict(t=Arr(3)), lambda i: rotate3d(f_(3), i.t)),
            ("reflect", 3, dict(n=Arr(3)), lambda i: reflect(f_(3), i.n))):
        def fn2(i, fn=fn):
            g = fn(i)
            return jax.jacfwd(g)(i.x)

        def cl(i, o, n=n):
            ap = [t for t in tm.subterms(list(o)) if t.op == "app" and t.val[0] == "f"]
            if not ap:
                return []
            args = ap[0].args
            return [("gradient length preserved", EQ(sumsq(o), sumsq([app("f", args, (k,)) for k in range(n)])))]

        out.append(H(f"slope {nm}", dict(x=Arr(n), **ins), fn2, cl, assume=(lambda i: [P(sumsq(i.n))]) if "n" in ins else None, diff=True))
    return out


def _unit3(rng):
    v = rng.normal(size=3)
    return dict(n=v / np.linalg.norm(v))
