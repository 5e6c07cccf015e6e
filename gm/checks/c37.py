"""Gears assembled from the building blocks (tooth parameters, tooth generator, cone, reference curve) without the ready-made families: their sections are compared with the
ready-made gear of the same data, their meshing with the rolling condition at the pitch point computed from the poses, partial gears tooth by tooth, recipes with their reference curve."""
import math
import numpy as np
from scipy.spatial import cKDTree
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen

PROP = "C37"
TECHNIQUE = "runtime monitoring: section, pose, phase and recipe monitors over real gears assembled from building blocks, against ready-made gears and own pitch-point arithmetic"
RULE = "Case = one or two assembled gears with data, poses and a meshing direction. Non-trivial = sections compared at two heights, the mesh evaluated at the pitch point, or a recipe followed along its reference curve."
COUNT = {"quick": 160, "thorough": 6000}
REQUIRED = ["section", "reported_size", "apex", "sphere_radius", "mesh_distance", "mesh_side", "mesh_axes", "mesh_apex", "mesh_phase", "fixed_untouched", "again_same", "like_ready_made", "teeth_present", "partial_pitch", "swap", "copy_independent",
            "path", "path_cone", "path_section", "recipes_agree", "external", "internal_pinion", "internal_ring", "bevel", "planar", "cutout", "fractional", "negative_teeth", "octoid", "involute", "cycloid", "spherical_involute", "thickness_sphere", "module_not_1", "moved"]
CASE_TIMEOUT = 60


def draw(r, i, tier):
    kind = ["mesh", "section", "mesh", "partial", "path", "mesh"][i % 6]
    bevel = r.random() < 0.45
    N = [r.randint(12, 44), r.randint(12, 44)]
    c = dict(kind=kind, N=N, m=r.choice([1.0, 2.0, 0.5, 3.3]), bevel=bevel, pa=r.choice([20, 14.5, 25]), f=[round(r.random(), 3), 1.0], h=round(r.uniform(0.5, 3), 2), place=gen.placement(r), place2=gen.placement(r), dir=round(r.uniform(-PI, PI), 4))
    c["sig"] = round(r.uniform(0.9, 2.2), 3)
    if kind == "mesh":
        c["ins"] = 0 if bevel else r.choice([0, 0, 1, 2])          # 1: ring placed around a pinion, 2: pinion placed in a ring
        if c["ins"]:
            c["N"] = [r.randint(12, 24), r.randint(38, 70)] if c["ins"] == 2 else [r.randint(38, 70), r.randint(12, 24)]
        c["neg"] = r.random() < 0.5
    if kind == "partial":
        c["cut"] = r.choice([0, 1, 3, c["N"][0] // 2, c["N"][0] - 1])
        c["frac"] = r.choice([0.0, 0.0, 0.25, 0.7])
    if kind == "section":
        c["gen"] = r.choice(["inv", "cyc", "oct"] if not bevel else ["oct", "cyc", "sphinv"])
        c["rc"] = [round(r.uniform(0.3, 0.5), 2), round(r.uniform(0.25, 0.5), 2)]
    if kind == "path":
        c["shape"] = r.choice(["line", "helix", "hyper", "cone"])
        c["par"] = [round(r.uniform(-0.5, 0.5), 3), round(r.uniform(0.05, 0.5), 3)]
    return c


def corpus(tier):
    P0, P1 = dict(pos=[0, 0, 0], rot=None, angle=0.0), dict(pos=[4, -3, 9], rot=[.3, .8, .4], angle=2.0)
    b = dict(pa=20, f=[0.0, 1.0], h=2.0, sig=PI / 2)
    out = []
    for pl in (P0, P1):
        for m in (1.0, 2.5):
            for ins, N in ((0, [20, 31]), (1, [50, 17]), (2, [15, 44])):
                out.append(dict(b, kind="mesh", N=N, m=m, bevel=False, place=pl, place2=P1, dir=0.8, ins=ins, neg=bool(ins == 1)))
            out.append(dict(b, kind="mesh", N=[20, 31], m=m, bevel=True, place=pl, place2=P1, dir=-2.2, ins=0, neg=False))
            for bv, ge in ((False, "inv"), (False, "cyc"), (False, "oct"), (True, "oct"), (True, "cyc"), (True, "sphinv")):
                out.append(dict(b, kind="section", N=[23, 30], m=m, bevel=bv, gen=ge, rc=[0.45, 0.4], place=pl, place2=P1, dir=0.0))
        for cut, fr in ((0, 0.0), (4, 0.0), (0, 0.5), (19, 0.0), (3, 0.4)):
            for bv in (False, True):
                out.append(dict(b, kind="partial", N=[20, 30], m=1.5, bevel=bv, cut=cut, frac=fr, place=pl, place2=P1, dir=0.0))
        for sh in ("line", "helix", "hyper", "cone"):
            out.append(dict(b, kind="path", N=[22, 30], m=2.0, bevel=False, shape=sh, par=[0.3, 0.2], place=pl, place2=P1, dir=0.0))
    return out


def run(c, mon):
    import gggears as gg
    import gggears.gearteeth as gt
    import gggears.gggears_core as core
    import gggears.gggears_base_classes as gb
    import gggears.curve as crv
    m, al = c["m"], math.radians(c["pa"])
    if m != 1.0:
        mon.cover("module_not_1")
    if any(c["place"]["pos"]) or c["place"]["rot"]:
        mon.cover("moved")
    N = c["N"]
    # cone angles of a pair with axis angle sig
    g1 = math.atan2(math.sin(c["sig"]), N[1] / N[0] + math.cos(c["sig"]))
    gam = [g1, c["sig"] - g1] if c["bevel"] else [0.0, 0.0]
    if c["bevel"] and not (0.12 < min(gam) and max(gam) < 1.35):
        raise Skip("cone angle out of range")
    R = N[0] / 2 / math.sin(gam[0]) if c["bevel"] else 0.0
    h = min(c["h"], 0.3 * R) if c["bevel"] else c["h"]

    def tg(name="inv", a=al):
        return {"inv": lambda: gt.InvoluteTooth(pressure_angle=a), "sphinv": lambda: gt.InvoluteTooth(pressure_angle=a), "oct": lambda: gt.OctoidTooth(pressure_angle=a), "cyc": lambda: gt.CycloidTooth(rc_in_coeff=c["rc"][0], rc_out_coeff=c["rc"][1])}[name]()

    def core_gear(n, ga, name, ins=False, cut=0, neg=False):
        return core.Gear(z_vals=np.array([0.0, h]), module=m, tooth_param=gb.GearToothParam(-n if neg else n, cut, ins != neg), tooth_generator=tg(name), cone=gb.ConicData(cone_angle=2 * ga))

    def put(g, p):
        Rm = np.eye(3) if p["rot"] is None else rand_rot(p["rot"])
        g.transform.center = np.array(p["pos"], float)
        g.transform.orientation = Rm.copy()
        g.transform.angle = p["angle"]

    def tooth(g, z, n=150):
        """world points of the first tooth of the section, piece by piece"""
        pr = g.curve_gen_at_z(z)
        P = np.vstack([sample(l, n) for l in leaves(pr.profile) if getattr(l, "active", True) and float(l.length) > 1e-9])
        return applyT(applyT(P, pr.transform), g.transform)

    def far(A, B):
        return max(float(dist_to_polyline(A, B).max()), float(dist_to_polyline(B, A).max()))

    zs = [c["f"][0] * h, c["f"][1] * h]
    if c["kind"] == "section":
        g = core_gear(N[0], gam[0], c["gen"])
        put(g, c["place"])
        if c["gen"] == "sphinv":
            mon.cover("spherical_involute")
        else:
            kw = dict(number_of_teeth=N[0], module=m, height=h * m)
            cls = "CycloidGear" if c["gen"] == "cyc" else ("BevelGear" if c["bevel"] else "SpurGear")
            if c["gen"] == "cyc":
                kw.update(inside_cycloid_coefficient=c["rc"][0], outside_cycloid_coefficient=c["rc"][1])
                mon.cover("cycloid")
            else:
                kw.update(pressure_angle=al, enable_undercut=False, root_fillet=0.0, tip_fillet=0.0)
                mon.cover("octoid" if c["gen"] == "oct" else "involute")
            if c["bevel"]:
                kw["cone_angle"] = 2 * gam[0]
            w = make(dict(cls=cls, kw=kw, pos=[0, 0, 0], rot=None, angle=0.0)).gearcore
            w.transform.center, w.transform.orientation, w.transform.angle = g.transform.center.copy(), g.transform.orientation.copy(), g.transform.angle
            for z in zs:
                mon.le("section", far(tooth(g, z), tooth(w, z)), 2e-4 * m * max(1.0, N[0] / 20), z=z, gen=c["gen"])
        zax = g.transform.orientation[:, 2]
        mon.near("reported_size", g.rp, m * N[0] / 2, 1e-12 * m * N[0])
        mon.near("reported_size", g.pitch_angle, 2 * PI / N[0], 1e-15)
        mon.cover("bevel" if c["bevel"] else "planar")
        if c["bevel"]:
            apex = np.array(c["place"]["pos"], float) + m * R * math.cos(gam[0]) * zax
            mon.near("apex", g.center_sphere, apex, 3e-5 * m * R)
            mon.near("reported_size", g.R, m * R, 3e-5 * m * R)
            for z in zs:
                ce, rr = g.sphere_data_at_z(z)
                mon.near("apex", ce, apex, 3e-5 * m * R, z=z)
                mon.near("sphere_radius", rr, m * (R - z), 3e-5 * m * R, z=z)
                P = tooth(g, z)
                mon.near("sphere_radius", np.linalg.norm(P - apex, axis=1), m * (R - z), 3e-5 * m * R, z=z, of="section")
            if c["gen"] == "sphinv":
                # tooth thickness on the pitch cone is half a pitch
                pr = g.curve_gen_at_z(0.0)
                P = np.vstack([sample(l, 2000) for l in leaves(pr.tooth_curve) if getattr(l, "active", True) and float(l.length) > 1e-9])
                co = (R * math.cos(gam[0]) - P[:, 2]) / R - math.cos(gam[0])
                i = int(np.argmin(abs(co)))
                mon.near("thickness_sphere", abs(math.atan2(P[i, 1], P[i, 0])), PI / 2 / N[0], 2e-3 * 2 / N[0])
        # another generator instead
        other = "cyc" if c["gen"] != "cyc" else ("oct" if c["bevel"] else "inv")
        c.setdefault("rc", [0.45, 0.4])
        t2 = tg(other)
        was = dict(vars(t2))
        a = g.copy()
        k = core_gear(N[0], gam[0], other)
        put(k, c["place"])
        T0 = tooth(g, zs[0])
        a.swap_tooth_generator(t2)
        for z in zs:
            mon.le("swap", far(tooth(a, z), tooth(k, z)), 2e-5 * m * N[0] / 20, z=z, to=other)
        mon.true("swap", all(was[q] is v or was[q] == v for q, v in vars(t2).items() if q in was and isinstance(was[q], (int, float))), what="argument altered")
        a.transform.center = a.transform.center + 5.0
        a.transform.angle += 1.0
        a.transform.orientation[:] = 0.0
        mon.near("copy_independent", tooth(g, zs[0]), T0, 1e-12)
        return

    if c["kind"] == "partial":
        n = N[0] + c["frac"]
        c.setdefault("rc", [0.45, 0.4])
        g = core_gear(n, gam[0], "oct" if c["bevel"] else "inv", cut=c["cut"])
        put(g, c["place"])
        mon.cover(*(["cutout"] if c["cut"] else []), *(["fractional"] if c["frac"] else []), "bevel" if c["bevel"] else "planar")
        k = int(math.floor(n - c["cut"]))
        T = tooth(g, zs[0], 60)
        zax, ce = g.transform.orientation[:, 2], np.array(c["place"]["pos"], float)
        ch = core.generate_boundary_chain(g.curve_gen_at_z(zs[0]), g.tooth_param)
        W = [(T - ce) @ rot_axis(zax, 2 * PI * j / n).T + ce for j in range(k)]
        tops = []
        for j in range(k):
            P = applyT(np.asarray(ch(np.linspace((j + 1e-6) / k, (j + 1 - 1e-6) / k, 61)), float), g.transform)
            mon.le("teeth_present", float(dist_to_polyline(P, W[j]).max()), 5e-4 * m * N[0] / 10, j=j, how="chain")
            mon.le("teeth_present", float(dist_to_polyline(W[j], P).max()), 0.1 * m, j=j, how="chain covers")
            tops.append(applyT(np.asarray(ch((j + 1e-6) / k), float)[None], g.transform)[0])
        tree = cKDTree(np.vstack(W))
        U = np.vstack([np.vstack([w[:-1] + (w[1:] - w[:-1]) * u for u in (0, 0.25, 0.5, 0.75)]) for w in W])
        for how in (False, True):
            b = g.boundary_at_z(zs[0], continuous=how)
            P = np.asarray(b(np.linspace(0, 1, 80 * k)), float)
            gap = [] if k == 1 else cKDTree(U).query(P[1:-1])[0]
            mon.le("teeth_present", float(np.max(gap, initial=0.0)), 0.06 * m * N[0] / 10, how="whole", continuous=how)
            mon.le("teeth_present", float(cKDTree(P).query(np.vstack(W))[0].max()), 0.3 * m, how="whole covers", continuous=how)
            mon.near("partial_pitch", P[0], T[0], 1e-4 * m * n, how="start", continuous=how)
        mon.near("partial_pitch", applyT(np.asarray(ch(1.0), float)[None], g.transform)[0], W[-1][-1], 1e-4 * m * n, how="end")
        a = rot_axis(zax, 2 * PI / n)
        for p, q in zip(tops, tops[1:]):
            mon.near("partial_pitch", (p - ce) @ a.T + ce, q, 1e-5 * m * n)
        mon.near("reported_size", g.rp, m * n / 2, 1e-12 * m * n)
        mon.near("reported_size", g.tooth_param.num_teeth_act, k, 0)
        if c["bevel"]:
            R2 = n / 2 / math.sin(gam[0])
            mon.near("apex", g.center_sphere, ce + m * R2 * math.cos(gam[0]) * zax, 3e-5 * m * R2)
        return

    if c["kind"] == "path":
        rp = N[0] / 2
        a, b = c["par"]
        p0 = np.array([rp, 0, 0.0])
        fun = {"line": lambda t: np.array([rp, 0, h * t]),
               "cone": lambda t: np.array([rp - h * t * math.sin(b), 0, h * t * math.cos(b)]),
               "helix": lambda t: np.array([rp * math.cos(a * t), rp * math.sin(a * t), h * t]),
               "hyper": lambda t: np.array([(rp - b * t + 0.3 * a * t * t) * math.cos(a * t), (rp - b * t + 0.3 * a * t * t) * math.sin(a * t), h * t])}[c["shape"]]
        slope = {"line": lambda t: 0.0, "helix": lambda t: 0.0, "cone": lambda t: b, "hyper": lambda t: math.atan2(b - 0.6 * a * t, h)}[c["shape"]]
        curve = crv.Curve(lambda t: np.stack([fun(x) for x in np.atleast_1d(t)])[0] if np.ndim(t) == 0 else np.stack([fun(x) for x in t]))
        tp = gb.GearToothParam(N[0])
        rec = core.gear_recipe_from_curve(teeth_data=tp, tooth_generator=gt.OctoidTooth(pressure_angle=al), ref_curve=curve, ref_curve_scaling_function=lambda z: z / h)
        g = core.Gear(z_vals=np.array([0.0, h]), module=m, tooth_param=tp, tooth_generator=rec.tooth_generator, shape_recipe=rec)
        put(g, c["place"])
        ref = g.copy()
        for f in (0.0, 0.37, c["f"][0], 1.0):
            z = f * h
            r = rec(z)
            want = applyT(np.asarray(curve(f), float)[None], g.transform)[0]
            mon.near("path", applyT(applyT(p0[None], r.transform), g.transform)[0], want, 1e-9 * m * rp, f=f, shape=c["shape"])
            mon.near("path_cone", r.cone.cone_angle / 2, slope(float(curve(f)[2]) / h), 2e-5 + (2e-4 if c["shape"] == "hyper" else 0), f=f, shape=c["shape"])
            mon.near("path_cone", r.tooth_generator.cone_angle, r.cone.cone_angle, 1e-12, f=f)
            # the section there: a tooth centred on the path, its two flanks a quarter pitch away
            pr = g.curve_gen_at_z(z)
            fl = np.vstack([sample(l, 800) for l in leaves(pr.tooth_curve) if getattr(l, "active", True) and float(l.length) > 1e-9])
            ga = r.cone.cone_angle / 2
            if abs(ga) > 1e-9:
                Rr = rp / math.sin(ga)
                i = int(np.argmin(abs((Rr * math.cos(ga) - fl[:, 2]) / Rr - math.cos(ga))))
            else:
                i = int(np.argmin(abs(np.hypot(fl[:, 0], fl[:, 1]) - rp)))
            mon.near("path_section", math.atan2(fl[i, 1], fl[i, 0]), -PI / 2 / N[0], 4e-3 * 2 / N[0], f=f, shape=c["shape"])
        if c["shape"] in ("line", "cone"):
            ga = 0.0 if c["shape"] == "line" else b
            d = core.default_gear_recipe(gb.GearToothParam(N[0]), gt.OctoidTooth(pressure_angle=al), 2 * ga)
            k = core.Gear(z_vals=np.array([0.0, h]), module=m, tooth_param=gb.GearToothParam(N[0]), tooth_generator=gt.OctoidTooth(pressure_angle=al), cone=gb.ConicData(cone_angle=2 * ga))
            for f in (0.0, c["f"][0], 1.0):
                A, B, K = d(f * h).transform, rec(f * h).transform, k.shape_recipe(f * h).transform
                for q, how in ((B, "curve"), (K, "gear")):
                    mon.near("recipes_agree", [q.scale, *q.center, q.angle], [A.scale, *A.center, A.angle], 1e-9 * rp, f=f, how=how)
                mon.near("recipes_agree", [rec(f * h).cone.cone_angle, k.shape_recipe(f * h).cone.cone_angle], [2 * ga] * 2, 4e-5, f=f, how="cone")
        return

    # meshing
    ins = c["ins"]
    g = core_gear(N[0], gam[0], "oct" if c["bevel"] else "inv", ins=ins == 1, neg=c["neg"] and ins == 1)
    f = core_gear(N[1], gam[1], "oct" if c["bevel"] else "inv", ins=ins == 2, neg=c["neg"] and ins == 2)
    if c["neg"] and ins:
        mon.cover("negative_teeth")
        mon.near("reported_size", [g.tooth_param.num_teeth, f.tooth_param.num_teeth], N, 0)
        mon.true("reported_size", g.tooth_param.inside_teeth == (ins == 1) and f.tooth_param.inside_teeth == (ins == 2))
    put(f, c["place"])
    put(g, c["place2"])
    of = f.transform.orientation.copy()
    ce = np.array(c["place"]["pos"], float)
    d = of @ np.array([math.cos(c["dir"]), math.sin(c["dir"]), 0.0])
    d0 = d.copy()
    TF = tooth(f, zs[0], 60)
    for rep in range(2):
        g.mesh_to(f, target_dir=d)
        if rep:
            mon.near("again_same", np.concatenate([g.transform.center, g.transform.orientation.ravel(), [g.transform.angle]]), first, 1e-9 * m * sum(N))
        first = np.concatenate([g.transform.center, g.transform.orientation.ravel(), [g.transform.angle]])
    mon.near("fixed_untouched", tooth(f, zs[0], 60), TF, 0.0)
    mon.near("fixed_untouched", d, d0, 0.0)
    zf, zg = of[:, 2], np.asarray(g.transform.orientation)[:, 2]
    v = np.asarray(g.center) - ce
    rp = [m * N[0] / 2, m * N[1] / 2]
    mon.near("mesh_axes", np.asarray(g.transform.orientation) @ np.asarray(g.transform.orientation).T, np.eye(3), 1e-9)
    mon.near("mesh_axes", np.linalg.det(g.transform.orientation), 1.0, 1e-9)
    if c["bevel"]:
        mon.cover("bevel", "external")
        apex = ce + m * R * math.cos(gam[1]) * zf
        mon.near("mesh_apex", np.asarray(g.center) + m * R * math.cos(gam[0]) * zg, apex, 5e-5 * m * R)
        mon.near("mesh_apex", g.center_sphere, f.center_sphere, 8e-5 * m * R)
        mon.near("mesh_axes", math.acos(max(-1, min(1, float(zf @ zg)))), c["sig"], 5e-5)
        mon.true("mesh_side", v @ d > 0, dir=c["dir"])
        mon.near("mesh_side", v @ np.cross(zf, d), 0.0, 3e-5 * m * R)
        Q = ce + rp[1] * d                                 # pitch point
        w = Q - np.asarray(g.center)
        mon.near("mesh_distance", np.linalg.norm(w), rp[0], 1e-4 * m * R)
        mon.near("mesh_distance", w @ zg, 0.0, 1e-4 * m * R)
    else:
        mon.cover("planar", ["external", "internal_ring", "internal_pinion"][ins])
        mon.near("mesh_axes", zg, zf, 1e-12)
        D = rp[0] + rp[1] if not ins else abs(rp[0] - rp[1])
        mon.near("mesh_distance", np.linalg.norm(v), D, 1e-9 * m * sum(N))
        mon.near("mesh_side", v, D * d, 1e-9 * m * sum(N))
        # pitch point: between the centres, or beyond them on the pinion's side
        Q = ce + d * (rp[1] if ins != 1 else -rp[1])
        w = Q - np.asarray(g.center)
        mon.near("mesh_distance", np.linalg.norm(w), rp[0], 1e-9 * m * sum(N))

    def phase(G, u, n):
        X = G.transform.orientation
        return (math.atan2(u @ X[:, 1], u @ X[:, 0]) - G.transform.angle) * n / (2 * PI)

    pf, pg = phase(f, Q - ce, N[1]), phase(g, w, N[0])
    s = pf + pg - 0.5 if not ins else pf - pg
    mon.le("mesh_phase", abs(s - round(s)), 2e-4, ins=ins)
    keep = g.transform.orientation.copy()
    g.transform.orientation[:] = 0.0
    mon.near("fixed_untouched", f.transform.orientation, of, 0.0, what="independent of the moved gear")
    g.transform.orientation = keep
    # the ready-made gears of the same data go to the same place
    if not ins:
        kw = [dict(number_of_teeth=n, module=m, height=h * m, pressure_angle=al, enable_undercut=False, root_fillet=0.0) for n in N]
        if c["bevel"]:
            kw[0]["cone_angle"], kw[1]["cone_angle"] = 2 * gam[0], 2 * gam[1]
        cl = "BevelGear" if c["bevel"] else "SpurGear"
        A, B = (make(dict(cls=cl, kw=k, pos=[0, 0, 0], rot=None, angle=0.0)) for k in kw)
        put(B.gearcore, c["place"])
        A.mesh_to(B, target_dir=d)
        t = A.gearcore.transform
        mon.near("like_ready_made", g.center, t.center, 1e-4 * m * sum(N))
        mon.near("like_ready_made", np.asarray(g.transform.orientation)[:, 2], np.asarray(t.orientation)[:, 2], 1e-4)
        mon.le("like_ready_made", far(np.asarray(g.boundary_at_z(0.0, continuous=False)(np.linspace(0, 1, N[0] * 40))), np.asarray(A.gearcore.boundary_at_z(0.0, continuous=False)(np.linspace(0, 1, N[0] * 40)))), 0.02 * m + 1e-4 * m * sum(N), what="boundary")
