"""Cycloid pairs (external, ring, bevel): radii adaptation, placement, and interference / contact while rolling.
Oracle: own rolling-circle relations, polygon intersection of the sampled real profiles (on the sphere for bevels)."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen
from .c05 import SpherePair

PROP = "C07"
TECHNIQUE = "runtime monitoring: rolled-contact interference monitor and adaptation monitor over cycloid pairs"
RULE = ("Case = two cycloid gears (external, ring or bevel), order of adapt / move / mesh, pose, direction; rolled through one pitch. "
        "Non-trivial = adaptation and at least one rolled phase were evaluated.")
COUNT = {"quick": 330, "thorough": 5000}
REQUIRED = ["adapted_radii", "kept_inside", "adapt_keeps_pose", "adapt_keeps_parameters", "distance", "no_interference", "contact_at_pitch_point", "external", "ring", "bevel", "ring_moves",
            "bevel_no_interference", "bevel_apex", "adapt_after_mesh", "helical"]


def draw(r, i, tier):
    kind = ["external", "ring", "bevel", "external", "ring"][i % 5]
    N1 = r.randint(8, 40)
    N2 = r.randint(10, 70) if kind != "ring" else N1 + r.randint(8, 50)
    return dict(kind=kind, N1=N1, N2=N2, i1=r.choice([0.5, 0.5, 0.4, 0.3]), o1=r.choice([0.5, 0.3, 0.2]), i2=r.choice([0.5, 0.5, 0.4, 0.3]), o2=r.choice([0.5, 0.3, 0.2]),
                m=gen.module(r), pos=gen.vec(r), rot=gen.rot(r), ang=gen.angle(r), phi=gen.direction_in_plane(r), ph=round(r.random(), 3), S=r.choice([PI / 2, PI / 3, 2 * PI / 3]),
                order=r.choice(["adapt_mesh", "mesh_adapt", "adapt_other_mesh", "adapt_mesh"]), ringmoves=r.random() < 0.5, beta=r.choice([0, 0, 0.3]) if kind == "external" else 0,
                ha=r.choice([1.0, 1.0, 0.8]), hd=r.choice([1.2, 1.25]), height=r.choice([1.0, 3.0]), anchor=r.choice([0, 0.5]))


def corpus(tier):
    import random
    out = []
    for s in range(15):
        c = draw(random.Random(f"c07{s}"), s, tier)
        if s < 5:
            c.update(pos=[0, 0, 0], rot=None, ang=0, phi=PI / 2 * s)
        out.append(c)
    # spot checks of the documented defaults
    out.append(dict(out[0], N1=12, N2=24, i1=0.5, o1=0.5, i2=0.5, o2=0.5, order="adapt_mesh", beta=0))
    return out


def kwargs(c, k):
    N, i, o = (c["N1"], c["i1"], c["o1"]) if k == 1 else (c["N2"], c["i2"], c["o2"])
    kw = dict(number_of_teeth=N, module=c["m"], height=c["height"] * c["m"], inside_cycloid_coefficient=i, outside_cycloid_coefficient=o, addendum_coefficient=c["ha"],
              dedendum_coefficient=c["hd"], z_anchor=c["anchor"])
    if c["beta"]:
        kw["helix_angle"] = c["beta"] * (1 if k == 1 else -1)
    if c["kind"] == "ring" and k == 2:
        kw.update(inside_teeth=True, addendum_coefficient=c["hd"], dedendum_coefficient=c["ha"])
    return kw


def adapted(c):
    """rolling radii (module 1) after adaptation: (in1, out1, in2, out2), own relations"""
    r1, r2 = c["N1"] / 2, c["N2"] / 2
    a, b, d, e = c["i1"] * r1, c["o1"] * r1, c["i2"] * r2, c["o2"] * r2
    if c["kind"] == "ring":      # ring is gear 2: the pinion keeps its inside, the ring its outside circle
        return a, e, a, e
    return a, d, d, a


def run(c, mon):
    N1, N2, m = c["N1"], c["N2"], c["m"]
    w = adapted(c)
    if min(w) < 1.6:
        raise Skip("rolling circle too small for the tooth height")
    if c["kind"] == "ring":
        if w[0] > 0.5 * N1 / 2 + 1e-9 or w[1] + w[0] > (N2 - N1) / 2 * 0.98:
            raise Skip("ring: rolling circles overlap")
    elif max(w[0] / N1, w[2] / N2) * 2 > 0.5 + 1e-9:
        raise Skip("hooked flanks")
    k1, k2 = kwargs(c, 1), kwargs(c, 2)
    if c["kind"] == "bevel":
        S = c["S"]
        ga = math.atan2(math.sin(S), N2 / N1 + math.cos(S))
        gb = S - ga
        R = N1 / 2 / math.sin(ga)
        if not (0.1 < ga < 1.4 and 0.1 < gb < 1.4) or R < 9 or ga - 1.4 / R < 0.03 or gb - 1.4 / R < 0.03:
            raise Skip("cone")
        k1.update(cone_angle=2 * ga, height=1.0 * m)
        k2.update(cone_angle=2 * gb, height=1.0 * m)
    place = dict(pos=c["pos"], rot=c["rot"], angle=c["ang"])
    rm = c["kind"] == "ring" and c["ringmoves"]
    g1 = make(dict(cls="CycloidGear", kw=k1, **(place if rm else {})))
    g2 = make(dict(cls="CycloidGear", kw=k2, **({} if rm else place)))
    mover, fixed = (g2, g1) if rm else (g1, g2)
    dr = in_plane_dir(fixed, c["phi"])
    if c["order"] == "mesh_adapt":
        mover.mesh_to(fixed, target_dir=dr)
        mon.cover("adapt_after_mesh")
    p1, p2 = pose(g1), pose(g2)
    if c["order"] == "adapt_other_mesh":
        fixed.adapt_cycloid_radii(mover)
    else:
        mover.adapt_cycloid_radii(fixed)
    for p, g in ((p1, g1), (p2, g2)):
        q = pose(g)
        mon.true("adapt_keeps_pose", all(np.allclose(x, y, atol=1e-12) for x, y in zip(p, q)), before=p[0], after=q[0])
    got = [g1.inside_cycloid_coefficient * N1 / 2, g1.outside_cycloid_coefficient * N1 / 2, g2.inside_cycloid_coefficient * N2 / 2, g2.outside_cycloid_coefficient * N2 / 2]
    mon.near("adapted_radii", got, w, 1e-9, kind=c["kind"])
    mon.true("kept_inside", abs(got[0] - c["i1"] * N1 / 2) < 1e-9)
    # same as gears constructed with these radii (nothing else changed), and the profile really uses them
    for g, k, N in ((g1, k1, N1), (g2, k2, N2)):
        f = make(dict(cls="CycloidGear", kw=dict(k, inside_cycloid_coefficient=g.inside_cycloid_coefficient, outside_cycloid_coefficient=g.outside_cycloid_coefficient)))
        z = f.gearcore.z_vals[-1] * 0.6
        mon.near("adapt_keeps_parameters", slice_gear(g, z, 10, [0]), slice_gear(f, z, 10, [0]), 1e-9)
        mon.near("adapt_keeps_parameters", g.gearcore.z_vals, f.gearcore.z_vals, 1e-12)
    if c["order"] != "mesh_adapt":
        mover.mesh_to(fixed, target_dir=dr)
    c1, O1, _, _ = pose(g1)
    c2, O2, _, _ = pose(g2)
    mon.cover(c["kind"], "ring_moves" if rm else "normal", "helical" if c["beta"] else "straight")
    if c["kind"] == "bevel":
        ap1 = c1 + O1[:, 2] * N1 / 2 * m / math.tan(ga)
        ap2 = c2 + O2[:, 2] * N2 / 2 * m / math.tan(gb)
        mon.near("bevel_apex", (ap1 - ap2) / m, np.zeros(3), 1e-7)
        mon.near("bevel_axis_angle", math.acos(np.clip(O1[:, 2] @ O2[:, 2], -1, 1)), ga + gb, 1e-7)
        P = c2 + N2 / 2 * m * dr
        mon.near("bevel_pitch_line", [np.linalg.norm(P - c1) / m - N1 / 2, (P - c1) @ O1[:, 2] / m], 0.0, 1e-7)
        sp = SpherePair((g1, g2), (0.0, 0.0), 0.5 * (ap1 + ap2), P, 50, 2)
        p = 2 * PI / N1
        for j in range(3):
            th = p * (j + c["ph"]) / 3
            a, b = sp.poly(0, th), sp.poly(1, -th * N1 / N2)
            if a is None or b is None:
                raise Skip("projection")
            if not mon.true("simple_section", a.is_valid and b.is_valid):
                return
            mon.le("bevel_no_interference", overlap(a, b), 1e-5, phase=th / p)
        return
    dist = (N1 + N2) / 2 if c["kind"] == "external" else (N2 - N1) / 2
    mon.near("distance", (pose(mover)[0] - pose(fixed)[0]) / m, dr * dist, 1e-8)
    mon.near("parallel_axes", O1[:, 2], O2[:, 2], 1e-9)
    zs = [0.0] + ([0.7 * g1.gearcore.z_vals[-1]] if c["beta"] else [])
    for z in zs:
        pair = PlanarPair(g1, g2, z, z, n=110)
        mon.near("coplanar", [pair.zspread / m, pair.zgap / m], 0.0, 1e-7)
        if not mon.true("simple_profile", pair.valid):
            return
        p = 2 * PI / N1
        for j in range(6):
            th = p * (j + c["ph"]) / 6
            mon.le("no_interference", pair.overlap_at(th) / m ** 2, 1e-5, phase=th / p, z=z)
        if z == 0.0:
            dl = 0.01 / (N1 / 2)
            o = {}
            for s in (1, -1):
                for t in (1, -1):
                    th = s * p / 4
                    o[s, t] = pair.overlap_at(th + t * dl, pair.sign * th * N1 / N2) / m ** 2
            best = max(min(o[1, 1], o[-1, -1]), min(o[1, -1], o[-1, 1]))
            mon.le("contact_at_pitch_point", -best, -2e-5)
