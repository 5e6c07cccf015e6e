"""Metamorphic monitor: the same construction (and mesh) is executed at two modules, every length is compared after scaling, every angle directly."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen
from . import c04, c15

PROP = "C17"
TECHNIQUE = "runtime monitoring: metamorphic (similarity) monitor over pairs of executions at different modules"
RULE = ("Case = one gear, meshed pair or rack executed at module m and at k*m with all absolute lengths scaled. Non-trivial = lengths and angles of both executions were compared.")
COUNT = {"quick": 156, "thorough": 5000}
CASE_TIMEOUT = 150
REQUIRED = ["lengths", "angles", "boundary", "mesh_centre", "mesh_axes", "volume", "solid_points", "rack_solid", "tiny", "huge", "single", "pair", "solid", "rack", "line_of_action"] + gen.FAMILIES


def draw(r, i, tier):
    k = round(10 ** r.uniform(-1.3, 1.7), 4)
    m = r.choice([1.0, 1.0, 2.0, 0.5, round(r.uniform(0.3, 5), 3)])
    kind = ["single", "single", "pair", "pair", "solid" if (i // 6) % 2 else "single", "rack"][i % 6]
    fam = gen.FAMILIES[(i // 6) % 13] if kind != "single" else r.choice(gen.FAMILIES)
    if kind == "pair":
        s = c04.pair_spec(r, c04.KINDS[(i // 6) % len(c04.KINDS)])
    elif kind == "rack":
        s = [dict(cls=r.choice(["InvoluteRack", "HelicalRack"]), kw=dict(number_of_teeth=r.randint(3, 9), height=3.0, module=1.0, pressure_angle=gen.pa(r), addendum_coefficient=r.choice([1.0, 0.9]),
                                                                       dedendum_coefficient=r.choice([1.2, 1.3]), root_fillet=r.choice([0, 0.1]), tip_fillet=r.choice([0, 0.1]), backlash=r.choice([0, 0.05])))]
        if s[0]["cls"] == "HelicalRack":
            s[0]["kw"].update(helix_angle=round(r.uniform(-0.6, 0.6), 3), herringbone=r.random() < 0.4)
    else:
        s = [gen.family_spec(r, fam)]
        if kind == "solid":
            s[0]["kw"]["number_of_teeth"] = min(s[0]["kw"]["number_of_teeth"], 14 if "ring" not in fam else 32)
    return dict(kind=kind, s=s, m=m, k=k, place=gen.placement(r), phi=gen.direction_in_plane(r), f=round(r.random(), 3), bl=r.choice([0.0, 0.0, 0.05]), bias=r.choice([0, 0.5]), fam=fam)


def corpus(tier):
    import random
    out = []
    for j, k in enumerate((0.05, 50.0, 0.0007)):
        for q in range(6):
            c = draw(random.Random(f"c17{j}{q}"), q, tier)
            out.append(dict(c, k=k, m=1.0))
    return out


def scaled(spec, m, place=None, f=1.0):
    """constructor call at module m: the drawn height is taken in modules of the drawn gear"""
    kw = dict(spec["kw"])
    kw["height"] = kw["height"] / kw["module"] * m
    kw["module"] = m
    p = {}
    if place is not None:
        p = dict(pos=(np.array(place["pos"]) * f).tolist(), rot=place["rot"], angle=place["angle"])
    return make(dict(cls=spec["cls"], kw=kw, **p))


def readings(g, f, gam, cyc):
    z = g.p2z(f)
    L = [g.pitch_radius, g.addendum_radius, g.dedendum_radius, g.max_outside_radius, g.z_height]
    A = [g.pitch_angle, g.angle, float(g.number_of_teeth), g.cone_angle, z]
    if gam:
        L += [g.radius_spherical]
        A += list(g.cone_angles_at_z(z))
    if not cyc and not gam:
        L += [g.r_base]
        A += [g.angle_base]
    o = c15.outputs(g, f, gam, not cyc)
    P = [o["bnd"], o["cp"], np.array([q for q, _ in o["loc"]]), np.array([q for q, _ in o["face"]])]
    P += [np.array([c for c, _ in o["cdata"].values()])]
    L += [r for _, r in o["cdata"].values()]
    ax = np.array([a for _, a in o["loc"]] + [a for _, a in o["face"]])
    if gam:
        P.append(o["apex"][None])
    return np.array(L, float), np.array(A, float), P, ax


def run(c, mon):
    import gggears as gg
    m, k, kind = c["m"], c["k"], c["kind"]
    mon.cover(kind, *(["tiny"] if k < 0.1 else []), *(["huge"] if k > 10 else []))
    if kind == "rack":
        parts = []
        for mm in (m, k * m):
            kw = dict(c["s"][0]["kw"], module=mm, height=c["s"][0]["kw"]["height"] * mm)
            rk = getattr(gg, c["s"][0]["cls"])(**kw)
            if c["place"]["rot"]:
                rk.orientation = rand_rot(c["place"]["rot"])
            rk.position = np.array(c["place"]["pos"]) * mm
            parts.append(rk.build_part())
        V0, V1 = c15.verts(parts[0]), c15.verts(parts[1])
        S = np.abs(V0).max()
        mon.le("rack_solid", c15.setdist(V1 / k, V0) / S, 1e-6)
        mon.near("rack_volume", parts[1].volume / parts[0].volume / k ** 3, 1.0, 1e-5)
        return
    s0 = c["s"][0]
    gam = s0["kw"].get("cone_angle", 0) / 2
    cyc = s0["cls"] == "CycloidGear"
    if kind == "pair":
        res = []
        for mm, f in ((m, 1.0), (k * m, k)):
            b = scaled(c["s"][1], mm, c["place"], f)
            a = scaled(c["s"][0], mm)
            d = in_plane_dir(b, c["phi"])
            if cyc or gam:
                a.mesh_to(b, target_dir=d)
            else:
                a.mesh_to(b, target_dir=d, backlash=c["bl"] * mm, angle_bias=c["bias"])
            res.append((pose(a), readings(a, c["f"], gam, cyc), a, b))
        (p0, r0, a0, b0), (p1, r1, a1, b1) = res
        S = np.abs(p0[0]).max() + 10 * m
        mon.near("mesh_centre", p1[0] / k, p0[0], 1e-8 * S, kind=[x["cls"] for x in c["s"]])
        mon.near("mesh_axes", p1[1], p0[1], 1e-8)
        mon.near("mesh_angle", math.remainder(p1[2] - p0[2], 2 * PI), 0.0, 1e-7)
        if not cyc and not gam and s0["cls"] == "SpurGear" and c["place"]["rot"] is None:
            la = []
            for a, b in ((a0, b0), (a1, b1)):
                la.append(np.vstack([np.asarray(l(np.array([0.0, 0.4, 1.0])), float) for l in gg.LineOfAction(a, b, c["f"]).LOA_gen()]))
            mon.near("line_of_action", la[1] / k, la[0], 1e-7 * S)
    else:
        g0, g1 = scaled(s0, m, c["place"], 1.0), scaled(s0, k * m, c["place"], k)
        mon.cover(c["s"][0]["fam"])
        r0, r1 = readings(g0, c["f"], gam, cyc), readings(g1, c["f"], gam, cyc)
        S = 20 + np.abs(r0[2][0]).max()
        if kind == "solid":
            q0, q1 = g0.build_part(), g1.build_part()
            mon.near("volume", q1.volume / q0.volume / k ** 3, 1.0, 1e-4, fam=s0["fam"])
            mon.le("solid_points", c15.setdist(c15.verts(q1) / k, c15.verts(q0)) / S, 1e-6, fam=s0["fam"])
    (L0, A0, P0, X0), (L1, A1, P1, X1) = r0, r1
    mon.near("lengths", L1 / k / L0.clip(1e-12), np.ones(len(L0)), 1e-8, cls=s0["cls"])
    mon.near("angles", A1, A0, 1e-8, cls=s0["cls"])
    mon.near("axes", X1, X0, 1e-6)
    for j, (u, v) in enumerate(zip(P1, P0)):
        mon.near("boundary" if j == 0 else "points", u / k, v, 1e-7 * S, which=j, cls=s0["cls"])
