"""Rotations and reflections by quaternions."""
from .common import *
from .C06 import Q, comps, ham, cj
from .C05 import rot
from magpi.quaternions import Quaternion, quaternion_rotation, quaternion_reflection, from_axis_angle, from_euler_angles

INFO = dict(bounds="any points, any nonzero quaternion, any angles, any unit axis, any nonzero mirror normal",
            outside="rounding; rotation axes that are not unit vectors")


def _unit3(rng):
    v = rng.normal(size=3)
    return dict(n=v / np.linalg.norm(v))


def harnesses():
    out = []
    nz = lambda i: [P(sumsq(i.q))]
    R = quaternion_rotation

    def rotm(q):
        w, x, y, z = cj(q)  # q^-1 p q
        n = sumsq(q)
        M = np.array([[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
                      [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
                      [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]], dtype=object)
        return np.array([[t / n for t in r] for r in M], dtype=object)

    out.append(H("rotation formula", dict(x=Arr(3), q=Arr(4)), lambda i: R(i.x, Q(i.q)),
                 lambda i, o: [("q^-1 x q", SAME(o, rotm(i.q) @ i.x))], assume=nz))
    out.append(H("isometry", dict(x=Arr(3), y=Arr(3), q=Arr(4)), lambda i: (R(i.x, Q(i.q)), R(i.y, Q(i.q))),
                 lambda i, o: [("lengths and angles kept", EQ(dot(o[0], o[1]), dot(i.x, i.y))), ("length kept", EQ(sumsq(o[0]), sumsq(i.x)))], assume=nz))
    out.append(H("orientation", dict(x=Arr(3), y=Arr(3), q=Arr(4)), lambda i: (R(i.x, Q(i.q)), R(i.y, Q(i.q)), R(jnp.cross(i.x, i.y), Q(i.q))),
                 lambda i, o: [("cross products kept", SAME(crossp(o[0], o[1]), o[2]))], assume=nz))
    out.append(H("linear", dict(x=Arr(3), y=Arr(3), s=Arr(), q=Arr(4)), lambda i: (R(i.x, Q(i.q)), R(i.y, Q(i.q)), R(i.x + i.s * i.y, Q(i.q))),
                 lambda i, o: [("linear", SAME(o[2], o[0] + i.s * o[1]))], assume=nz))
    out.append(H("axis fixed", dict(q=Arr(4), s=Arr()), lambda i: R(i.s * i.q[1:], Q(i.q)), lambda i, o: [("axis fixed", SAME(o, i.s * i.q[1:]))], assume=nz))
    out.append(H("scale of q is irrelevant", dict(x=Arr(3), q=Arr(4), s=Arr()), lambda i: (R(i.x, Q(i.q)), R(i.x, Q(i.s * i.q))),
                 lambda i, o: [("same rotation", SAME(o[0], o[1]))], assume=lambda i: [P(sumsq(i.q)), tm.ne(i.s, tm.ZERO)]))
    out.append(H("composition", dict(x=Arr(3), p=Arr(4), q=Arr(4)), lambda i: (R(R(i.x, Q(i.p)), Q(i.q)), R(i.x, Q(i.p) * Q(i.q))),
                 lambda i, o: [("first p then q is p*q", SAME(o[0], o[1]))], assume=lambda i: [P(sumsq(i.q)), P(sumsq(i.p))],
                 rules=lambda i: []))
    out.append(H("inverse", dict(x=Arr(3), q=Arr(4)), lambda i: (R(R(i.x, Q(i.q)), Q(i.q).reciprocal()), R(R(i.x, Q(i.q)), Q(i.q).conj())),
                 lambda i, o: [("undone by the reciprocal", SAME(o[0], i.x)), ("undone by the conjugate", SAME(o[1], i.x))], assume=nz))
    # axis angle
    ru = lambda i: [(i.n[2], 2, 1 - i.n[0] ** 2 - i.n[1] ** 2)]
    un = dict(assume=lambda i: EQ(sumsq(i.n), 1), rules=ru, sample=_unit3)

    def aa(i):
        q = from_axis_angle(i.t, i.n)
        return comps(q), R(i.x, q), abs(q)

    def aac(i, o):
        C, S = cos(i.t), sin(i.t)
        k, nd = crossp(i.n, i.x), dot(i.n, i.x)
        return [("clockwise rotation about the axis", SAME(o[1], oarr([i.x[j] * C - k[j] * S + i.n[j] * nd * (1 - C) for j in range(3)]))),
                ("unit quaternion", EQ(o[2], 1)),
                ("half angle", SAME(o[0], oarr([cos(i.t / 2)] + [t * sin(i.t / 2) for t in i.n])))]

    out.append(H("axis-angle", dict(x=Arr(3), t=Arr(), n=Arr(3)), aa, aac, **un))
    out.append(H("axis-angle with a tuple axis", dict(x=Arr(3), t=Arr()), lambda i: R(i.x, from_axis_angle(i.t, (0.0, 0.0, 1.0))),
                 lambda i, o: [("clockwise about z", SAME(o, rot(2, cos(i.t), -sin(i.t)) @ i.x))]))
    out.append(H("axis-angle adds up", dict(x=Arr(3), t=Arr(), u=Arr(), n=Arr(3)),
                 lambda i: (R(R(i.x, from_axis_angle(i.t, i.n)), from_axis_angle(i.u, i.n)), R(i.x, from_axis_angle(i.t + i.u, i.n))),
                 lambda i, o: [("angles add", SAME(o[0], o[1]))], **un))

    # Euler angles
    def eu(i):
        q = from_euler_angles(i.a)
        return R(i.x, q), abs(q), comps(q)

    def euc(i, o):
        M = [rot(k, cos(i.a[k]), -sin(i.a[k])) for k in range(3)]
        return [("clockwise about z, then y, then x", SAME(o[0], M[0] @ (M[1] @ (M[2] @ i.x)))), ("unit quaternion", EQ(o[1], 1))]

    out.append(H("Euler angles", dict(x=Arr(3), a=Arr(3)), eu, euc))
    for k in range(3):
        out.append(H(f"Euler angle {k} alone", dict(t=Arr()),
                     lambda i, k=k: (comps(from_euler_angles(jnp.zeros(3).at[k].set(i.t))), comps(from_axis_angle(i.t, jnp.eye(3)[k]))),
                     lambda i, o: [("is the axis-angle quaternion", SAME(o[0], o[1]))]))
    # reflection
    def rf(i):
        y = quaternion_reflection(i.x, i.n)
        return y, quaternion_reflection(y, i.n)

    def rfc(i, o):
        t = dot(i.x, i.n) / sumsq(i.n)
        return [("mirror image", SAME(o[0], oarr([i.x[k] - 2 * t * i.n[k] for k in range(3)]))), ("involution", SAME(o[1], i.x)),
                ("length kept", EQ(sumsq(o[0]), sumsq(i.x)))]

    out.append(H("reflection", dict(x=Arr(3), n=Arr(3)), rf, rfc, assume=lambda i: [P(sumsq(i.n))]))
    return out
