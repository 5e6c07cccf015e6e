"""Algebra of the placement transforms, observed on the real objects. Oracle: own 4x4 homogeneous matrices built from centre,
orientation, scale and angle; every product, inverse and application of the library is compared with matrix arithmetic."""
import copy
import numpy as np
from ..geom import *
from .. import gen

PROP = "C21"
TECHNIQUE = "runtime monitoring: homogeneous-matrix reference model compared with every transform operation of the real library"
RULE = ("Case = a chain of random transforms of one kind (plain data, callable, gear data, callable gear) with hostile orientations, scales and angles, applied, multiplied and inverted. "
        "Non-trivial = at least one product, one inverse and one application were compared with the matrix model.")
COUNT = {"quick": 900, "thorough": 20000}
REQUIRED = ["apply", "product", "product_matrix", "associative", "inverse_left", "inverse_right", "identity", "scale_lengths", "single_vs_array", "operands_unchanged", "angle_additive", "axes", "reflection_free",
            "TransformData", "Transform", "GearTransformData", "GearTransform", "negative_angle", "euler_singular", "kind_kept"]
KINDS = ["TransformData", "Transform", "GearTransformData", "GearTransform"]


def one(r):
    o = r.random()
    if o < 0.15:
        R = None
    elif o < 0.4:
        R = ["axis", [r.choice([0, 1]), r.choice([0, 1]), 1], r.choice([np.pi / 2, np.pi, -np.pi / 2, 1e-7])]
    elif o < 0.5:
        R = ["axis", [0, 1, 0], r.choice([np.pi / 2, -np.pi / 2])]
    else:
        R = ["rand", [r.random(), r.random(), r.random()]]
    return dict(c=[r.uniform(-1, 1) * 10 ** r.uniform(-3, 3) for _ in range(3)] if r.random() < 0.8 else [0.0, 0.0, 0.0], R=R,
                s=r.choice([1.0, 0.05, 50.0]) if r.random() < 0.5 else 10 ** r.uniform(-2, 2), a=r.choice([0.0, np.pi, -np.pi / 2, 12.0]) if r.random() < 0.4 else r.uniform(-8, 8))


def draw(r, i, tier):
    return dict(kind=KINDS[i % 4], T=[one(r) for _ in range(3)], seed=r.randint(0, 10 ** 9))


def corpus(tier):
    idn = dict(c=[0.0, 0.0, 0.0], R=None, s=1.0, a=0.0)
    t = dict(c=[1.0, -2.0, 3.0], R=["axis", [0, 1, 0], np.pi / 2], s=2.0, a=0.7)
    return [dict(kind=k, T=[idn, t, t], seed=1) for k in KINDS] + [dict(kind=k, T=[t, idn, idn], seed=2) for k in KINDS]


def rotm(R):
    if R is None:
        return np.eye(3)
    return rot_axis(R[1], R[2]) if R[0] == "axis" else rand_rot(R[1])


def run(c, mon):
    import gggears.gggears_base_classes as bc
    K = getattr(bc, c["kind"])
    gear = c["kind"].startswith("Gear")
    mk = lambda d: K(center=np.array(d["c"], float), orientation=rotm(d["R"]), scale=d["s"], **(dict(angle=d["a"]) if gear else {}))

    def mat(d):
        M = np.eye(4)
        M[:3, :3] = rotm(d["R"]) @ (rotz(d["a"]) if gear else np.eye(3)) * d["s"]
        M[:3, 3] = d["c"]
        return M

    mon.cover(c["kind"])
    if any(d["R"] and d["R"][0] == "axis" and d["R"][1] == [0, 1, 0] for d in c["T"]):
        mon.cover("euler_singular")
    rng = np.random.default_rng(c["seed"])
    P = rng.normal(size=(7, 3)) * 10 ** rng.uniform(-2, 2)
    H = np.hstack([P, np.ones((7, 1))])
    T = [mk(d) for d in c["T"]]
    M = [mat(d) for d in c["T"]]
    before = copy.deepcopy(T)
    f = (lambda t, p: bc.apply_gear_transform(p, t)) if gear else (lambda t, p: bc.apply_transform(p, t))
    call = (lambda t, p: t(p)) if c["kind"] in ("Transform", "GearTransform") else f

    def size(*ms):
        s = float(np.max(np.abs(P))) + 1
        for m in reversed(ms):
            s = float(np.max(np.abs(m[:3, :3]))) * s * 2 + float(np.max(np.abs(m[:3, 3])))
        return s

    for t, m in zip(T, M):
        want = (H @ m.T)[:, :3]
        tol = 1e-12 * size(m)
        mon.near("apply", f(t, P), want, tol, kind=c["kind"])
        mon.near("apply", call(t, P), want, tol)
        mon.near("apply", t * P, want, tol)
        mon.near("single_vs_array", np.array([np.asarray(call(t, p)) for p in P]), want, tol)
        mon.near("single_vs_array", np.asarray(call(t, P.reshape(7, 1, 3))).reshape(7, 3), want, tol)
        mon.near("product_matrix", t.affine_matrix, m, 1e-12 * (1 + np.max(np.abs(m))))
        R0 = np.asarray(t.orientation)
        mon.near("axes", np.stack([t.x_axis, t.y_axis, t.z_axis], 1), R0, 0.0)
        d0 = np.linalg.norm(P[1:] - P[:-1], axis=1) * t.scale
        d1 = np.linalg.norm(np.diff(f(t, P), axis=0), axis=1)
        mon.near("scale_lengths", d1, d0, 1e-11 * size(m))
        i = t.invert()
        mi = np.linalg.inv(m)
        mon.true("kind_kept", type(i) is type(t) and type(t * t) is type(t), got=type(i).__name__)
        tol = 1e-11 * size(mi, m)
        mon.near("inverse_left", f(i, f(t, P)), P, tol)
        mon.near("inverse_right", f(t, f(i, P)), P, 1e-11 * size(m, mi))
        mon.near("inverse_left", f(i * t, P), P, tol)
        mon.near("inverse_right", f(t * i, P), P, 1e-11 * size(m, mi))
        mon.near("reflection_free", np.linalg.det(i.orientation), 1.0, 1e-9)
        if gear:
            mon.near("angle_additive", [i.angle, (t * i).angle, i.scale * t.scale], [-t.angle, 0.0, 1.0], 1e-12 * (1 + abs(t.angle)))
            if t.angle < 0:
                mon.cover("negative_angle")
    a, b, d = T
    A, B, D = M
    mon.near("product", f(a * b, P), (H @ (A @ B).T)[:, :3], 1e-12 * size(A, B))
    mon.near("product_matrix", (a * b).affine_matrix, A @ B, 1e-12 * (1 + np.max(np.abs(A @ B)) + size(A, B)))
    W = (H @ (A @ B @ D).T)[:, :3]
    mon.near("associative", f((a * b) * d, P), W, 1e-12 * size(A, B, D))
    mon.near("associative", f(a * (b * d), P), W, 1e-12 * size(A, B, D))
    mon.near("identity", f(K() * a, P), (H @ A.T)[:, :3], 1e-12 * size(A))
    mon.near("identity", f(a * K(), P), (H @ A.T)[:, :3], 1e-12 * size(A))
    mon.near("identity", f(K(), P), P, 0.0)
    if gear:
        mon.near("angle_additive", [(a * b).angle, ((a * b) * d).angle], [a.angle + b.angle, a.angle + b.angle + d.angle], 1e-12)
    same = all(np.array_equal(x.center, y.center) and np.array_equal(x.orientation, y.orientation) and x.scale == y.scale and getattr(x, "angle", 0) == getattr(y, "angle", 0) for x, y in zip(T, before))
    mon.true("operands_unchanged", same)
    # products and defaults do not share storage with their operands
    p = a * K()
    p.center += 1.0
    p.orientation[0, 0] += 1.0
    z = K()
    z.center += 5.0
    z.orientation[0, 1] += 5.0
    mon.true("operands_unchanged", np.array_equal(a.center, before[0].center) and np.array_equal(a.orientation, before[0].orientation))
    mon.near("identity", f(K(), P), P, 0.0)
