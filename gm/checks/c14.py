"""Solids built by the real library are probed with the CAD kernel's point classifier on both sides of the exact section at many heights,
their faces are counted and measured, and (cylindrical gears) their volume is compared with the integral of section areas."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen

PROP = "C14"
TECHNIQUE = "runtime monitoring: solids built by the real library probed with the CAD kernel's classifier against the exact sections, volumes and face counts measured"
RULE = ("Case = one gear, random pose, built into a solid. Non-trivial = the solid exists and at least 40 probe points on both sides of the exact section were classified.")
COUNT = {"quick": 52, "thorough": 700}
CASE_TIMEOUT = 200
REQUIRED = ["one_solid", "valid", "inside_point_in_solid", "outside_point_not_in_solid", "beyond_ends", "volume", "faces_per_tooth", "end_face_area", "bore_side", "bevel_ring"] + gen.FAMILIES
EPS = 0.012


def draw(r, i, tier):
    fam = gen.FAMILIES[i % len(gen.FAMILIES)]
    s = gen.family_spec(r, fam)
    s["kw"]["number_of_teeth"] = min(s["kw"]["number_of_teeth"], 30 if "ring" not in fam else 45)
    if tier == "thorough" and r.random() < 0.3:
        s["kw"]["number_of_teeth"] = min(160, s["kw"]["number_of_teeth"] * r.choice([2, 3]))
    if fam == "bevel" and (i // len(gen.FAMILIES)) % 2:
        # internal bevel gear: only the general classes offer it
        k = s["kw"]
        n = r.randint(24, 45)
        gam = r.uniform(0.35, 1.25)
        s = dict(cls=r.choice(["InvoluteGear", "InvoluteGear", "CycloidGear"]), fam="bevel_ring", kw=dict(number_of_teeth=n, cone_angle=round(2 * gam, 4), module=k.get("module", 1.0), height=round(min(5.0, 0.3 * n / 2 / math.sin(gam)) * k.get("module", 1.0), 3),
                 inside_teeth=True, helix_angle=r.choice([0, 0, 0.3, -0.4])))
        if s["cls"] == "InvoluteGear":
            s["kw"]["enable_undercut"] = False
    return dict(spec=s, place=gen.placement(r), r=r.randrange(10**6))


def corpus(tier):
    f = lambda fam, cls, **k: dict(spec=dict(cls=cls, kw=k, fam=fam), place={}, r=5)
    return [f("spur", "SpurGear", number_of_teeth=8), f("ring", "SpurRingGear", number_of_teeth=30), f("ring", "SpurRingGear", number_of_teeth=24, outside_ring_coefficient=1.6, module=2.0), f("helical", "HelicalGear", number_of_teeth=12, helix_angle=0.6, height=12.0),
            f("herring", "HelicalGear", number_of_teeth=17, helix_angle=-0.5, herringbone=True, height=9.0, z_anchor=0.5, crowning=80),
            f("cycloid", "CycloidGear", number_of_teeth=7, height=2.0), f("bevel", "BevelGear", number_of_teeth=16, cone_angle=PI / 2, height=3.0),
            f("bevel_ring", "InvoluteGear", number_of_teeth=30, cone_angle=1.4, height=3.0, inside_teeth=True, module=2.0), f("bevel_ring", "InvoluteGear", number_of_teeth=36, cone_angle=2.3, height=4.0, inside_teeth=True, helix_angle=0.3, enable_undercut=False),
            f("bevel_ring", "CycloidGear", number_of_teeth=24, cone_angle=0.9, height=3.0, inside_teeth=True)]


def probes(pr, parts, ap, us):
    out = []
    for name, P in parts.items():
        if len(P) < 5:
            continue
        d = np.linalg.norm(np.diff(P, axis=0), axis=1)
        cum = np.concatenate([[0], np.cumsum(d)])
        if cum[-1] < 0.15:
            continue
        for u in us:
            k = min(max(int(np.argmin(abs(cum - u * cum[-1]))), 1), len(P) - 2)
            t = P[k + 1] - P[k - 1]
            # skip corners
            a, b = P[k] - P[k - 1], P[k + 1] - P[k]
            if np.linalg.norm(a) < 1e-9 or np.linalg.norm(b) < 1e-9 or unit(a) @ unit(b) < 0.97:
                continue
            up = np.array([0, 0, 1.0]) if ap is None else -unit(P[k] - ap)
            out.append((name, P[k], np.cross(up, unit(t))))
    return out


def area2(P):
    x, y = P[:, 0], P[:, 1]
    return 0.5 * abs(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1)))


def run(c, mon):
    from OCP.BRepClass3d import BRepClass3d_SolidClassifier
    from OCP.gp import gp_Pnt
    from OCP.TopAbs import TopAbs_IN
    s = c["spec"]
    kw, fam = s["kw"], s["fam"]
    g = make(dict(cls=s["cls"], kw=kw, **c["place"]))
    part = g.build_part()
    sol = part.solids()
    mon.cover(fam)
    if not mon.true("one_solid", len(sol) == 1, n=len(sol), fam=fam):
        return
    sol = sol[0]
    v = sol.is_valid
    mon.true("valid", bool(v() if callable(v) else v), fam=fam)
    N = int(g.number_of_teeth)
    ring = bool(g.gearcore.tooth_param.inside_teeth)
    gam = float(kw.get("cone_angle", 0) or 0) / 2
    ap = np.array([0, 0, (N / 2) / math.tan(gam)]) if gam else None
    T = g.gearcore.transform
    m = float(T.scale)
    zv = g.gearcore.z_vals
    z0, z1 = float(zv[0]), float(zv[-1])
    cl = BRepClass3d_SolidClassifier(sol.wrapped)

    def inside(p):
        cl.Perform(gp_Pnt(*map(float, p)), 1e-7 * m)
        return cl.State() == TopAbs_IN

    import random
    r = random.Random(c["r"])
    us = [0.15, 0.5, 0.85] if len(zv) > 2 or not gam else [0.15, 0.4, 0.65, 0.88]
    fs = [0.02, round(r.uniform(0.1, 0.45), 3), round(r.uniform(0.5, 0.9), 3), 0.98]
    rot = lambda k: rotz(k * 2 * PI / N)
    areas = {}
    for f in fs:
        z = z0 + f * (z1 - z0)
        pr, parts = tooth_parts(g, z, 80)
        k = r.randrange(N)
        for name, P, nl in probes(pr, parts, ap, us):
            if ring:
                nl = -nl
            for sg in (1, -1):
                q = applyT(applyT((P + sg * EPS * nl) @ rot(k).T, pr.transform), T)
                got = inside(q)
                if sg > 0:
                    mon.true("inside_point_in_solid", got, f=f, piece=name, tooth=k, fam=fam, p=q)
                else:
                    mon.true("outside_point_not_in_solid", not got, f=f, piece=name, tooth=k, fam=fam, p=q)
        # far from the teeth: material side of the body
        if gam == 0:
            ro = float(np.linalg.norm(np.asarray(pr.ro_curve(0.5), float)[:2])) if ring else 0.0
            th = r.uniform(-PI, PI)
            for rad, want in ([(ro - 0.05, True), (ro + 0.05, False)] if ring else [(0.3 * N / 2, True)]):
                q = applyT(applyT(np.array([rad * math.cos(th), rad * math.sin(th), 0.0]), pr.transform), T)
                mon.true("bore_side", inside(q) == want, rad=rad, f=f, fam=fam)
        elif ring:
            # the outer boundary of an internal bevel gear is the cone of its ring circle
            o = np.asarray(pr.ro_curve(0.5), float)
            ro, th, Rs = math.hypot(o[0], o[1]), r.uniform(-PI, PI), np.linalg.norm(o - ap)
            for rad, want in ((ro - 0.05, True), (ro + 0.05, False)):
                if rad > 0.95 * Rs:
                    continue
                q = np.array([rad * math.cos(th), rad * math.sin(th), ap[2] - math.copysign(math.sqrt(Rs * Rs - rad * rad), ap[2] - o[2])])
                mon.true("bore_side", inside(applyT(applyT(q, pr.transform), T)) == want, rad=rad, f=f, fam=fam)
    # beyond both ends there is nothing, just within there is material: take a point well inside a tooth
    for z, sg in ((z0, -1), (z1, 1)):
        pr, parts = tooth_parts(g, z, 40)
        a = parts["tooth_curve"][len(parts["tooth_curve"]) // 2]
        b = parts["tooth_curve_mirror"][len(parts["tooth_curve_mirror"]) // 2]
        mid = 0.5 * (a + b)
        if ring:
            q = np.vstack([p for p in parts.values() if len(p)])
            ro = float(np.linalg.norm(np.asarray(pr.ro_curve(0.5), float)[:2]))
            rr = np.hypot(q[:, 0], q[:, 1]).max()
            mid = np.array([0.5 * (ro + rr), 0.0, mid[2]])
        if ap is not None and ring:
            Rs = np.linalg.norm(a - ap)
            mid[2] = ap[2] - math.copysign(math.sqrt(Rs * Rs - mid[0] ** 2), ap[2] - a[2])
        elif ap is not None:  # back onto the sphere
            mid = ap + unit(mid - ap) * np.linalg.norm(a - ap)
        ax = np.array([0, 0, 1.0]) if ap is None else unit(ap - mid)
        for e, want in ((0.03 * sg, False), (-0.03 * sg, True)):
            q = applyT(applyT(mid + e * ax, pr.transform), T)
            mon.true("beyond_ends", inside(q) == want, top=sg > 0, e=e, fam=fam)
    # cylinders: volume, faces, end faces
    if gam == 0:
        tw = len(zv)

        def area(z):
            pr, parts = tooth_parts(g, z, 160)
            P = dedup(np.vstack([parts[k] for k in ("rd_curve", "tooth_curve", "ra_curve", "tooth_curve_mirror") if len(parts[k])]))
            L = np.vstack([P @ rot(k).T for k in range(N)])
            A = area2(L)
            if ring:
                ro = float(np.linalg.norm(np.asarray(pr.ro_curve(0.5), float)[:2]))
                A = PI * ro * ro - A
            return A * m * m
        zz = np.linspace(z0, z1, 5)
        A = [area(float(z)) for z in zz]
        h = (z1 - z0) * m
        w = np.array([7, 32, 12, 32, 7]) / 90.0
        want = float(np.dot(w, A)) * h
        mon.near("volume", float(sol.volume) / want, 1.0, 2e-3, fam=fam)
        n_ends = 2
        faces = sol.faces()
        body = len(faces) - n_ends - (1 if ring else 0)
        mon.true("faces_per_tooth", body > 0 and body % N == 0, faces=len(faces), N=N, ring=ring, fam=fam)
        ax = np.asarray(T.orientation, float)[:, 2]
        ends = []
        for fc in faces:
            if str(fc.geom_type).endswith("PLANE"):
                n = fc.normal_at()
                n = np.array([n.X, n.Y, n.Z])
                if abs(abs(n @ ax) - 1) < 1e-6:
                    ends.append((float(n @ ax), float(fc.area)))
        lo = [a for d, a in ends if d < 0]
        hi = [a for d, a in ends if d > 0]
        mon.true("end_faces", len(lo) == 1 and len(hi) == 1, lo=len(lo), hi=len(hi), fam=fam)
        if lo and hi:
            mon.near("end_face_area", [lo[0] / A[0], hi[0] / A[-1]], [1.0, 1.0], 1e-3, fam=fam)
