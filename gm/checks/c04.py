"""Meshing is equivariant: a metamorphic monitor compares executions of the same mesh call for moved fixed gears, other
prior poses, scaled directions, repetitions and chains, and watches that nothing but the moved gear's pose changes."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen

PROP = "C04"
TECHNIQUE = "runtime monitoring: metamorphic (equivariance) monitor over pairs of executions"
RULE = ("Case = a compatible pair of any family, a rigid motion of the fixed gear, a prior pose of the moved one, a direction. "
        "Non-trivial = result poses of at least two executions were compared.")
COUNT = {"quick": 360, "thorough": 5000}
REQUIRED = ["equivariant", "prior_pose_irrelevant", "requested_side", "idempotent", "other_unchanged", "direction_unchanged", "direction_length", "direction_tilt", "phase_follows", "shape_unchanged", "chain",
            "spur", "helical", "crossed", "ring", "helical_ring", "bevel", "cycloid", "cycloid_ring", "cycloid_bevel"]
KINDS = ["spur", "helical", "crossed", "ring", "helical_ring", "bevel", "spiral", "cycloid", "cycloid_ring", "cycloid_bevel"]


def pair_spec(r, kind):
    m = gen.module(r)
    N1, N2 = r.randint(9, 40), r.randint(12, 60)
    base = dict(module=m, height=round(m * r.choice([1, 2, 4]), 4))
    if r.random() < 0.4:
        base["z_anchor"] = r.choice([0.5, 1.0])
    a = gen.pa(r)
    x1, x2 = (round(r.uniform(-.2, .4), 3), round(r.uniform(-.2, .4), 3)) if r.random() < 0.5 else (0, 0)
    if kind in ("spur", "helical", "crossed"):
        c = "SpurGear" if kind == "spur" else "HelicalGear"
        k1 = dict(base, number_of_teeth=N1, pressure_angle=a, profile_shift=x1)
        k2 = dict(base, number_of_teeth=N2, pressure_angle=a, profile_shift=x2)
        if kind != "spur":
            b = round(r.uniform(-.7, .7), 3)
            k1["helix_angle"] = b
            k2["helix_angle"] = -b if kind == "helical" else round(r.uniform(-.7, .7), 3)
        return [dict(cls=c, kw=k1), dict(cls=c, kw=k2)]
    if kind in ("ring", "helical_ring"):
        N2 = N1 + r.randint(15, 60)
        k1 = dict(base, number_of_teeth=N1, pressure_angle=a)
        k2 = dict(base, number_of_teeth=N2, pressure_angle=a)
        if kind == "helical_ring":
            k1["helix_angle"] = k2["helix_angle"] = round(r.uniform(-.6, .6), 3)
            o = [dict(cls="HelicalGear", kw=k1), dict(cls="HelicalRingGear", kw=k2)]
        else:
            o = [dict(cls="SpurGear", kw=k1), dict(cls="SpurRingGear", kw=k2)]
        return o if r.random() < 0.5 else o[::-1]
    if kind in ("bevel", "spiral", "cycloid_bevel"):
        S = r.choice([PI / 2, PI / 2, PI / 3, 2 * PI / 3, round(r.uniform(0.5, 2.2), 3)])
        g1 = math.atan2(math.sin(S), N2 / N1 + math.cos(S))
        g2 = S - g1
        if max(g1, g2) > 1.55:
            S = PI / 2
            g1 = math.atan2(N1, N2)
            g2 = S - g1
        k1, k2 = dict(base, number_of_teeth=N1, cone_angle=2 * g1), dict(base, number_of_teeth=N2, cone_angle=2 * g2)
        k1["height"] = k2["height"] = m * 1.0
        if kind == "spiral":
            k1["helix_angle"], k2["helix_angle"] = 0.3, -0.3
        c = "CycloidGear" if kind == "cycloid_bevel" else "BevelGear"
        return [dict(cls=c, kw=k1), dict(cls=c, kw=k2)]
    k1, k2 = dict(base, number_of_teeth=N1), dict(base, number_of_teeth=N2)
    if kind == "cycloid_ring":
        k2.update(number_of_teeth=N1 + r.randint(15, 50), inside_teeth=True)
        o = [dict(cls="CycloidGear", kw=k1), dict(cls="CycloidGear", kw=k2)]
        return o if r.random() < 0.5 else o[::-1]
    return [dict(cls="CycloidGear", kw=k1), dict(cls="CycloidGear", kw=k2)]


def draw(r, i, tier):
    kind = KINDS[i % len(KINDS)]
    s = pair_spec(r, kind)
    return dict(kind=kind, g1=s[0], g2=s[1], fixed=gen.placement(r), motion=dict(rot=[r.random(), r.random(), r.random()], t=gen.vec(r, 200)),
                prior=gen.placement(r), phi=gen.direction_in_plane(r), length=round(10 ** r.uniform(-2, 2), 4), dang=round(r.uniform(-4, 4), 4),
                backlash=r.choice([0, 0, 0.05]), bias=r.choice([0, 0.4, -1]), phi2=gen.direction_in_plane(r), third=r.randint(9, 30), tilt=r.choice([0.3, -1.0, 5.0]))


def corpus(tier):
    import random
    out = []
    for k in KINDS:
        for s in range(3):
            c = draw(random.Random(f"c04{k}{s}"), KINDS.index(k), tier)
            if s == 0:
                c["fixed"] = dict(pos=[0, 0, 0], rot=None, angle=0)
                c["phi"] = PI / 2
            if s == 1:
                c["motion"] = dict(rot=[0.5, 0.0, 0.5], t=[0, 0, 0])     # half-turn type motions, singular for Euler angles
            out.append(c)
        # watch-sized gears: a few hundredths of a unit apart
        c = draw(random.Random(f"c04{k}tiny"), KINDS.index(k), tier)
        for g in (c["g1"], c["g2"]):
            f = 0.0013 / g["kw"]["module"]
            g["kw"].update(module=0.0013, height=g["kw"]["height"] * f)
        out.append(c)
    return out


def comb(g):
    c, R, a, s = pose(g)
    return c, R @ rotz(a)


def same_up_to_pitch(A, B, pitch):
    """B == A . rotz(k*pitch) ? returns residual"""
    D = A.T @ B
    a = math.atan2(D[1, 0], D[0, 0])
    k = round(a / pitch)
    return np.abs(D - rotz(k * pitch)).max()


def shape(g):
    zs = [g.gearcore.z_vals[0], 0.3 * g.gearcore.z_vals[0] + 0.7 * g.gearcore.z_vals[-1]]
    if g.cone_angle:
        zs = zs[1:]
    return [slice_gear(g, z, 12, teeth=[0]) for z in zs]


def run(c, mon):
    inv = not c["kind"].startswith("cycloid")
    kw = dict(backlash=c["backlash"] * c["g1"]["kw"]["module"], angle_bias=c["bias"]) if inv and c["kind"] not in ("bevel", "spiral") else {}
    A = make(c["g1"])
    B = make(dict(c["g2"], **c["fixed"]))
    m = c["g1"]["kw"]["module"]
    pitch = 2 * PI / int(A.number_of_teeth)
    sh0, shB = shape(A), shape(B)
    pb = pose(B)
    dr = in_plane_dir(B, c["phi"])
    dr0 = dr.copy()
    A.mesh_to(B, target_dir=dr, **kw)
    mon.cover(c["kind"])
    mon.true("direction_unchanged", np.array_equal(dr, dr0))
    pb2 = pose(B)
    mon.true("other_unchanged", all(np.array_equal(x, y) for x, y in zip(pb, pb2)))
    c0, M0 = comb(A)
    scale = m * (int(A.number_of_teeth) + int(B.number_of_teeth))
    mon.near("orthonormal", A.gearcore.transform.orientation.T @ A.gearcore.transform.orientation, np.eye(3), 1e-9)
    mon.near("right_handed", np.linalg.det(A.gearcore.transform.orientation), 1.0, 1e-9)
    v = c0 - pb[0]
    z2 = pb[1][:, 2]
    v = v - z2 * (v @ z2) * (c["kind"] in ("bevel", "spiral", "cycloid_bevel"))
    mon.near("requested_side", unit(v), dr, 1e-7)
    # repeat
    A.mesh_to(B, target_dir=dr, **kw)
    c1, M1 = comb(A)
    mon.near("idempotent", (c1 - c0) / scale, np.zeros(3), 1e-9)
    mon.near("idempotent", same_up_to_pitch(M0, M1, pitch), 0.0, 1e-8)
    # prior pose of the moved gear
    A2 = make(dict(c["g1"], **c["prior"]))
    A2.mesh_to(B, target_dir=dr, **kw)
    c1, M1 = comb(A2)
    mon.near("prior_pose_irrelevant", (c1 - c0) / scale, np.zeros(3), 1e-9)
    mon.near("prior_pose_irrelevant", same_up_to_pitch(M0, M1, pitch), 0.0, 1e-8)
    # length of the direction
    if inv:
        A2.mesh_to(B, target_dir=dr * c["length"], **kw)
        c1, M1 = comb(A2)
        mon.near("direction_length", (c1 - c0) / scale, np.zeros(3), 1e-9)
        mon.near("direction_length", same_up_to_pitch(M0, M1, pitch), 0.0, 1e-8)
    # bevel gears: only the part of the direction in the plane of the fixed gear counts
    if c["kind"] in ("bevel", "spiral"):
        A2.mesh_to(B, target_dir=dr + z2 * c["tilt"], **kw)
        c1, M1 = comb(A2)
        mon.near("direction_tilt", (c1 - c0) / scale, np.zeros(3), 1e-9)
        mon.near("direction_tilt", same_up_to_pitch(M0, M1, pitch), 0.0, 1e-8)
    # rigid motion of the fixed gear
    Q, t = rand_rot(c["motion"]["rot"]), np.array(c["motion"]["t"])
    B2 = make(c["g2"])
    set_pose(B2, Q @ pb[0] + t, Q @ pb[1], pb[2])
    A2.mesh_to(B2, target_dir=Q @ dr, **kw)
    c1, M1 = comb(A2)
    mon.near("equivariant", (c1 - (Q @ c0 + t)) / (scale + np.abs(t).max()), np.zeros(3), 1e-9)
    mon.near("equivariant", same_up_to_pitch(Q @ M0, M1, pitch), 0.0, 1e-8)
    # turning the fixed gear turns the moved one by the tooth ratio
    B2.gearcore.transform.angle = pb[2] + c["dang"]
    A2.mesh_to(B2, target_dir=Q @ dr, **kw)
    c2, M2 = comb(A2)
    sg = 1 if (A.inside_teeth or B.inside_teeth) else -1
    turn = sg * c["dang"] * int(B.number_of_teeth) / int(A.number_of_teeth)
    mon.near("phase_follows", (c2 - c1) / scale, np.zeros(3), 1e-9)
    mon.near("phase_follows", same_up_to_pitch(M1 @ rotz(turn), M2, pitch), 0.0, 1e-8)
    # shapes
    for x, y in zip(sh0 + shB, shape(A) + shape(B)):
        mon.near("shape_unchanged", y, x, 1e-9)
    mon.near("scale_unchanged", [A.gearcore.transform.scale / pose(A2)[3], pose(B)[3] / pb[3]], 1.0, 1e-12)
    # third gear in the train: same relation as meshing to a fresh copy of the second at that pose
    if c["kind"] in ("spur", "helical", "cycloid"):
        k3 = dict(c["g2"]["kw"], number_of_teeth=c["third"])
        C1, C2 = make(dict(c["g2"], kw=k3)), make(dict(c["g2"], kw=k3))
        d2 = in_plane_dir(A, c["phi2"])
        C1.mesh_to(A, target_dir=d2)
        F = make(c["g1"])
        set_pose(F, *pose(A)[:3])
        C2.mesh_to(F, target_dir=d2)
        a, b = comb(C1), comb(C2)
        mon.near("chain", (a[0] - b[0]) / scale, np.zeros(3), 1e-9)
        mon.near("chain", same_up_to_pitch(a[1], b[1], 2 * PI / c["third"]), 0.0, 1e-8)
