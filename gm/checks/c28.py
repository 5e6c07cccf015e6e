"""Design formulas against their defining equations and against the gears built from them. Oracle: textbook relations solved by own
bisection (involute function, cone proportions, zero-backlash distances), inverse pairs closed in both directions, and mesh results of real gears."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen

PROP = "C28"
TECHNIQUE = "runtime monitoring: defining-equation and inverse-pair oracles on the design formulas, cross-checked with meshed gears of the real library"
RULE = ("Case = one set of design inputs (tooth counts, shifts, pressure angle, module, axis angle, backlash) evaluated by the formulas and, for a part of the cases, by building and meshing the gears. "
        "Non-trivial = the defining equation was evaluated and every inverse was closed.")
COUNT = {"quick": 900, "thorough": 15000}
REQUIRED = ["cone_ratio", "cone_sum", "cone_swap", "distance", "distance_ring", "backlash_inverse", "backlash_inverse_ring", "monotone", "symmetric", "nominal", "nominal_ring", "standard_pair", "gear_distance", "gear_backlash",
            "gear_ring_distance", "bevel_radius", "bevel_axis", "obtuse_axis", "shifted", "backlash", "ring_swap", "cone_data", "tooth_param"]


def draw(r, i, tier):
    N1, N2 = gen.teeth(r, 8, 120), gen.teeth(r, 8, 120)
    return dict(kind=["cone", "ext", "ring", "gears", "ext", "ring", "cone", "misc"][i % 8], N1=N1, N2=N2, Nr=N1 + r.randint(8, 90), axis=round(r.uniform(0.3, 2.6), 4) if r.random() < 0.7 else math.pi / 2,
                al=gen.pa(r), x1=round(r.uniform(-0.3, 0.5), 3) if r.random() < 0.6 else 0.0, x2=round(r.uniform(-0.3, 0.5), 3) if r.random() < 0.6 else 0.0, m=gen.module(r),
                bl=r.choice([0.0, 0.01, 0.05, 0.2]), ring=r.random() < 0.4, bevel=r.random() < 0.3, phi=gen.direction_in_plane(r), pose=gen.placement(r))


def corpus(tier):
    b = dict(axis=math.pi / 2, al=math.radians(20), x1=0.0, x2=0.0, m=1.0, bl=0.0, phi=0.0, pose=dict(pos=[0, 0, 0], rot=None, angle=0.0))
    return [dict(b, kind=k, N1=n1, N2=n2, Nr=n1 + 30, ring=q, bevel=w) for k in ("cone", "ext", "ring", "gears", "misc") for n1, n2 in ((12, 12), (17, 40), (60, 13)) for q in (False, True) for w in (False, True)]


def run(c, mon):
    import gggears.gearmath as gm
    N1, N2, Nr, m, al, bl = c["N1"], c["N2"], c["Nr"], c["m"], c["al"], c["bl"]
    s1 = InvoluteSpec(N1, al, c["x1"])
    s2 = InvoluteSpec(N2, al, c["x2"])
    h = lambda s: s.half + inv(s.alpha)
    k = c["kind"]
    if c["x1"] or c["x2"]:
        mon.cover("shifted")
    if bl:
        mon.cover("backlash")
    if k == "cone":
        d = c["axis"]
        if N2 + N1 * math.cos(d) < 0.05 * N1 or N1 + N2 * math.cos(d) < 0.05 * N2:
            raise Skip("one gear becomes a crown or internal bevel")
        if d > math.pi / 2:
            mon.cover("obtuse_axis")
        g = np.asarray(gm.cone_angle_from_teeth(N1, N2, d)) / 2
        mon.near("cone_sum", g.sum(), d, 1e-12)
        mon.near("cone_ratio", math.sin(g[0]) * N2, math.sin(g[1]) * N1, 1e-10 * (N1 + N2))
        mon.near("cone_swap", np.asarray(gm.cone_angle_from_teeth(N2, N1, d))[::-1] / 2, g, 1e-11)
        if d == math.pi / 2:
            mon.near("cone_ratio", np.asarray(gm.cone_angle_from_teeth(N1, N2)) / 2, [math.atan2(N1, N2), math.atan2(N2, N1)], 1e-12)
        return
    if k == "ext":
        y = (s1.rb * h(s1) + s2.rb * h(s2) - s2.rb * PI / N2) / (s1.rb + s2.rb)
        if y + bl / m / 2 / (s1.rb + s2.rb) < 1e-4:
            raise Skip("no operating pressure angle")
        want, aw = external_distance(s1, s2, m, bl)
        arg = lambda a, b: (a.rb * m, b.rb * m, h(a), h(b), 2 * PI / b.N)
        D = gm.calc_involute_mesh_distance(*arg(s1, s2), backlash=bl)
        mon.near("distance", D / m, want / m, 1e-7)
        mon.near("backlash_inverse", gm.backlash_from_ax_distance(D, *arg(s1, s2)), bl, 1e-6 * m)
        D2 = D + 0.013 * m
        b2 = gm.backlash_from_ax_distance(D2, *arg(s1, s2))
        mon.near("backlash_inverse", gm.calc_involute_mesh_distance(*arg(s1, s2), backlash=b2) / m, D2 / m, 1e-7)
        mon.true("monotone", b2 > bl)
        # closer than the tight fit: the teeth overlap, the backlash is negative by as much as it is positive on the other side
        D0 = external_distance(s1, s2, m, 0.0)[0]
        e = min(1e-3 * m, 0.2 * (D0 - (s1.rb + s2.rb) * m))
        bn, bp = gm.backlash_from_ax_distance(D0 - e, *arg(s1, s2)), gm.backlash_from_ax_distance(D0 + e, *arg(s1, s2))
        mon.true("overlap", bn < 0 < bp, bn=bn, bp=bp)
        aw0 = math.acos((s1.rb + s2.rb) * m / D0)
        mon.near("overlap", [bn, bp], [-2 * math.sin(aw0) * e, 2 * math.sin(aw0) * e], 0.35 * 2 * math.sin(aw0) * e + 1e-7 * m)
        mon.near("symmetric", [gm.calc_involute_mesh_distance(*arg(s2, s1), backlash=bl) / m, gm.backlash_from_ax_distance(D2, *arg(s2, s1)) / m], [D / m, b2 / m], 1e-7)
        if c["x1"] == c["x2"] == 0 and bl == 0:
            mon.near("standard_pair", D / m, (N1 + N2) / 2, 1e-7)
        mon.near("nominal", [gm.calc_nominal_mesh_distance(N1 * m / 2, N2 * m / 2, c["x1"], c["x2"], m), gm.calc_nominal_mesh_distance(N2 * m / 2, N1 * m / 2, c["x2"], c["x1"], m)],
                 [((N1 + N2) / 2 + c["x1"] + c["x2"]) * m] * 2, 1e-9 * m * (N1 + N2))
        return
    sr = InvoluteSpec(Nr, al, c["x2"])
    if k == "ring":
        y = (sr.rb * h(sr) - s1.rb * h(s1)) / (sr.rb - s1.rb) - bl / m / 2 / (sr.rb - s1.rb)
        if y < 1e-4:
            raise Skip("no operating pressure angle")
        want, aw = internal_distance(s1, sr, m, bl)
        p, q = (s1.rb * m, sr.rb * m), (h(s1), h(sr))
        D = gm.calc_involute_mesh_distance(*p, *q, 2 * PI / Nr, inside_ring=True, backlash=bl)
        D_ = gm.calc_involute_mesh_distance(*p[::-1], *q[::-1], 2 * PI / N1, inside_ring=True, backlash=bl)
        mon.near("distance_ring", abs(D) / m, want / m, 1e-7)
        mon.near("ring_swap", abs(D_) / m, want / m, 1e-7)
        mon.near("backlash_inverse_ring", gm.backlash_from_ax_distance(D, *p, *q, 2 * PI / Nr, inside_ring=True), bl, 1e-6 * m)
        mon.near("backlash_inverse_ring", gm.backlash_from_ax_distance(D_, *p[::-1], *q[::-1], 2 * PI / N1, inside_ring=True), bl, 1e-6 * m, swapped=True)
        b2 = gm.backlash_from_ax_distance(D * (1 - 1e-4), *p, *q, 2 * PI / Nr, inside_ring=True)
        mon.true("monotone", b2 > bl)
        mon.near("nominal_ring", [gm.calc_nominal_mesh_distance(Nr * m / 2, N1 * m / 2, c["x2"], c["x1"], m, inside_ring_1=True), gm.calc_nominal_mesh_distance(N1 * m / 2, Nr * m / 2, c["x1"], c["x2"], m, inside_ring_2=True)],
                 [((Nr - N1) / 2 + c["x2"] - c["x1"]) * m] * 2, 1e-9 * m * Nr)
        return
    if k == "misc":
        from gggears.gggears_base_classes import ConicData, TransformData, GearToothParam
        g = c["axis"] / 2
        R = rand_rot([0.3, 0.8, 0.1]) if c["pose"]["rot"] is None else rand_rot(c["pose"]["rot"])
        t = TransformData(center=np.array(c["pose"]["pos"], float), orientation=R, scale=m)
        cd = ConicData(cone_angle=2 * g, base_radius=N1 / 2, transform=t)
        L = N1 / 2 * m
        mon.near("cone_data", [cd.gamma, cd.height / L, cd.spherical_radius / L, cd.R / L, cd.r], [g, 1 / math.tan(g), 1 / math.sin(g), 1 / math.sin(g), N1 / 2], 1e-12 * N1)
        mon.near("cone_data", cd.center, np.array(c["pose"]["pos"]) + R[:, 2] * L / math.tan(g), 1e-11 * (L / math.tan(g) + 50))
        mon.near("cone_data", cd.center_base, c["pose"]["pos"], 1e-12)
        cn = ConicData(cone_angle=-2 * g, base_radius=N1 / 2)
        mon.near("cone_data", [cn.R, cn.center[2], cn.height], [N1 / 2 / math.sin(g), -N1 / 2 / math.tan(g), -N1 / 2 / math.tan(g)], 1e-9 * N1 / g)
        for n, cut, ins in ((N1, 0, False), (-N1, 0, False), (N1 + 0.4, 3, True), (-N1, 2, True)):
            p = GearToothParam(n, cut, ins)
            mon.near("tooth_param", [p.num_teeth, p.num_teeth_act, p.pitch_angle], [abs(n), math.floor(abs(n) - cut), 2 * PI / abs(n)], 1e-12)
            mon.true("tooth_param", p.inside_teeth == (ins != (n < 0)))
        return
    # gears built with the values
    if c["bevel"]:
        d = c["axis"]
        if min(N2 + N1 * math.cos(d), N1 + N2 * math.cos(d)) < 0.2 * max(N1, N2):
            raise Skip("near crown gear")
        ca = np.asarray(gm.cone_angle_from_teeth(N1, N2, d))
        n1, n2 = max(N1, 12), max(N2, 12)
        ca = np.asarray(gm.cone_angle_from_teeth(n1, n2, d))
        hh = 0.2 * n1 * m / 2
        g1 = make(dict(cls="BevelGear", kw=dict(number_of_teeth=n1, module=m, cone_angle=float(ca[0]), height=hh), **c["pose"]))
        g2 = make(dict(cls="BevelGear", kw=dict(number_of_teeth=n2, module=m, cone_angle=float(ca[1]), height=hh)))
        mon.near("bevel_radius", g1.radius_spherical / m, g2.radius_spherical / m, 1e-8 * (n1 + n2))
        g2.mesh_to(g1, target_dir=in_plane_dir(g1, c["phi"]))
        z1, z2 = pose(g1)[1][:, 2], pose(g2)[1][:, 2]
        mon.near("bevel_axis", math.acos(max(-1, min(1, float(z1 @ z2)))), d, 1e-7)
        return
    if c["ring"]:
        if Nr - N1 < 12:
            raise Skip("too close tooth counts")
        a = make(dict(cls="SpurGear", kw=dict(number_of_teeth=N1, module=m, pressure_angle=al, profile_shift=c["x1"], height=m), **c["pose"]))
        b = make(dict(cls="SpurRingGear", kw=dict(number_of_teeth=Nr, module=m, pressure_angle=al, profile_shift=c["x2"], height=m)))
        y = (sr.rb * h(sr) - s1.rb * h(s1)) / (sr.rb - s1.rb) - bl / m / 2 / (sr.rb - s1.rb)
        if y < 1e-3:
            raise Skip("no operating pressure angle")
        b.mesh_to(a, target_dir=in_plane_dir(a, c["phi"]), backlash=bl)
        D = np.linalg.norm(pose(a)[0] - pose(b)[0])
        want = gm.calc_involute_mesh_distance(s1.rb * m, sr.rb * m, h(s1), h(sr), 2 * PI / Nr, inside_ring=True, backlash=bl)
        mon.near("gear_ring_distance", D / m, abs(want) / m, 1e-6)
        mon.near("gear_backlash", gm.backlash_from_ax_distance(D, s1.rb * m, sr.rb * m, h(s1), h(sr), 2 * PI / Nr, inside_ring=True) / m, bl / m, 1e-5)
    else:
        y = (s1.rb * h(s1) + s2.rb * h(s2) - s2.rb * PI / N2) / (s1.rb + s2.rb)
        if y < 1e-3:
            raise Skip("no operating pressure angle")
        a = make(dict(cls="SpurGear", kw=dict(number_of_teeth=N1, module=m, pressure_angle=al, profile_shift=c["x1"], height=m), **c["pose"]))
        b = make(dict(cls="SpurGear", kw=dict(number_of_teeth=N2, module=m, pressure_angle=al, profile_shift=c["x2"], height=m)))
        b.mesh_to(a, target_dir=in_plane_dir(a, c["phi"]), backlash=bl)
        D = np.linalg.norm(pose(a)[0] - pose(b)[0])
        mon.near("gear_distance", D / m, gm.calc_involute_mesh_distance(s1.rb * m, s2.rb * m, h(s1), h(s2), 2 * PI / N2, backlash=bl) / m, 1e-6)
        mon.near("gear_backlash", gm.backlash_from_ax_distance(D, s1.rb * m, s2.rb * m, h(s1), h(s2), 2 * PI / N2) / m, bl / m, 1e-5)
