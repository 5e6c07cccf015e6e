"""Bevel sections in space: every sampled point of real bevel sections (straight, spiral, cycloid) is measured on the sphere about the apex computed from the parameters alone;
the flank is compared with the envelope of a rolling crown-gear plane (own construction), limits and thickness with the formulas, sections of one gear with each other."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen

PROP = "C33"
TECHNIQUE = "runtime monitoring: sphere, limit, thickness, similarity and crown-plane-envelope monitors over sampled world-space sections of real bevel gears"
RULE = "Case = one bevel gear, its placement and two section heights. Non-trivial = all profile pieces of both sections measured on the sphere, flank compared with the rolling crown plane."
COUNT = {"quick": 150, "thorough": 7000}
REQUIRED = ["on_sphere", "tip_on_sphere", "root_on_sphere", "thickness", "similar", "twist", "apex_reported", "radius_reported", "angles_reported", "cone_reported", "flank_octoid", "limit_cylinder",
            "undercut", "plain_root", "spiral", "straight", "cycloid", "moved", "upper", "below_cusp", "flat_cone", "sharp_cone", "backlash", "crowned", "rim_on_sphere"]


def draw(r, i, tier):
    s = gen.family_spec(r, ["bevel", "spiral_bevel", "bevel", "cycloid_bevel"][i % 4], fancy=False)
    kw = s["kw"]
    kw["cone_angle"] = round(r.uniform(0.12, 2.7), 3)
    if s["cls"] == "BevelGear":
        kw["pressure_angle"] = gen.pa(r)
        kw["enable_undercut"] = r.random() < 0.5
        if r.random() < 0.4:
            kw["addendum_coefficient"] = round(r.uniform(0.6, 1.1), 2)
            kw["dedendum_coefficient"] = round(r.uniform(0.9, 1.35), 2)
        if r.random() < 0.3:
            kw["root_fillet"] = r.choice([0.1, 0.2]) if not kw["enable_undercut"] else 0.0
        if i % 4 == 2:
            kw["tip_fillet"] = r.choice([0.0, 0.1])
    if r.random() < 0.3:
        kw["backlash"] = r.choice([0.02, 0.1])
    if r.random() < 0.3:
        kw["crowning"] = r.choice([30, 100])
    R = kw["number_of_teeth"] / 2 / math.sin(kw["cone_angle"] / 2)
    kw["height"] = round(kw["module"] * r.choice([0.1, 0.2, 0.33]) * R, 4)
    return dict(spec=s, place=gen.placement(r), f=[round(r.random(), 3), r.choice([0.0, 1.0, round(r.random(), 3)])], lim=r.random() < 0.1)


def corpus(tier):
    out = []
    P0 = dict(pos=[0, 0, 0], rot=None, angle=0.0)
    P1 = dict(pos=[4, -3, 9], rot=[.3, .8, .4], angle=2.0)
    for N, ca, uc in ((16, PI / 2, True), (39, 1.291, False), (11, 1.819, False), (40, PI / 2, False), (24, 0.3, True), (30, 2.5, True), (60, 2.0, False)):
        for k, pl in ((dict(), P0), (dict(helix_angle=0.4, module=3.0), P1), (dict(backlash=0.05, crowning=80, z_anchor=0.5), P1)):
            R = N / 2 / math.sin(ca / 2)
            out.append(dict(spec=dict(cls="BevelGear", kw=dict(number_of_teeth=N, cone_angle=ca, enable_undercut=uc, root_fillet=0.0, height=round(0.25 * R * k.get("module", 1.0), 3), **k), fam="bevel"), place=pl, f=[0.0, 0.8], lim=not k))
    return out


def crown_envelope(gam, al, half, n=6000, span=1.2):
    """flank of the gear cut by a plane of a rolling crown gear: unit vectors from the apex, gear axis +z, body towards -z"""
    best = None
    for sg in (1, -1):
        k = np.array([math.cos(gam), 0, math.sin(gam)])
        n0 = math.cos(al) * np.array([0, 1.0, 0]) + sg * math.sin(al) * k
        phi = np.linspace(-span, span, n)
        w = phi * math.sin(gam)
        # Rodrigues about k (n0 not perpendicular to k)
        c, s = np.cos(w)[:, None], np.sin(w)[:, None]
        kx = np.cross(k, n0)
        nc = n0 * c + kx * s + k * (k @ n0) * (1 - c)
        dn = np.cross(k, nc) * math.sin(gam) - np.cross([0, 0, 1.0], nc)
        # velocity in the gear frame: crown turns about k, gear frame turns back about z
        p = np.cross(nc, dn)
        p /= np.linalg.norm(p, axis=1)[:, None]
        p = np.where((p @ np.array([math.sin(gam), 0, -math.cos(gam)]))[:, None] < 0, -p, p)
        cz, sz = np.cos(-phi), np.sin(-phi)
        q = np.stack([p[:, 0] * cz - p[:, 1] * sz, p[:, 0] * sz + p[:, 1] * cz, p[:, 2]], 1)
        pol = np.arccos(np.clip(-q[:, 2], -1, 1))
        az = np.arctan2(q[:, 1], q[:, 0])
        m = n // 2
        # the flank on the -y side leans towards the middle of its tooth going outwards
        d = (az[m + 5] - az[m - 5]) * (pol[m + 5] - pol[m - 5])
        if d > 0:
            best = (q, pol)
    q, pol = best
    if pol[-1] < pol[0]:
        q, pol = q[::-1], pol[::-1]
    m = len(pol) // 2
    lo = m
    while lo > 0 and pol[lo - 1] < pol[lo]:
        lo -= 1
    hi = m
    while hi < len(pol) - 1 and pol[hi + 1] > pol[hi]:
        hi += 1
    return q[lo:hi + 1] @ rotz(-half).T, float(pol[lo])


def run(c, mon):
    s = c["spec"]
    kw, cls = s["kw"], s["cls"]
    N, ca = kw["number_of_teeth"], kw["cone_angle"]
    gam = ca / 2
    R = N / 2 / math.sin(gam)
    m = kw.get("module", 1.0)
    ha, hd = kw.get("addendum_coefficient", 1.0), kw.get("dedendum_coefficient", 1.2)
    if gam - hd / R < 0.03 or gam + ha / R > 1.52:
        raise Skip("tooth beyond the axis or the equator")
    al = kw.get("pressure_angle", 20 * PI / 180)
    uc = cls == "BevelGear" and kw.get("enable_undercut", True)
    Nv = N / math.cos(gam)
    exc = hd - Nv / 2 * math.sin(al) ** 2
    if uc and exc > 0.85 or (cls == "BevelGear" and (not uc) and exc > 1.0) or R < 4.5:
        raise Skip("design limit")
    g = make(dict(cls=cls, kw=kw, **c["place"]))
    T = g.gearcore.transform
    cen, O, ang, sc = pose(g)
    apex = cen + O @ np.array([0, 0, R * math.cos(gam)]) * m
    zv = np.asarray(g.gearcore.z_vals, float)
    mon.cover("moved" if c["place"]["rot"] else "unrotated", "flat_cone" if gam > 1.1 else ("sharp_cone" if gam < 0.25 else "cone"), "cycloid" if cls == "CycloidGear" else ("undercut" if uc else "plain_root"),
              "spiral" if kw.get("helix_angle") else "straight", *(["backlash"] if kw.get("backlash") else []), *(["crowned"] if kw.get("crowning") else []))
    # reported frame of the cone
    mon.near("apex_reported", (np.asarray(g.center_spherical, float) - apex) / m, np.zeros(3), 1e-8 * R)
    mon.near("radius_reported", float(g.radius_spherical) / m, R, 1e-8 * R)
    cd = g.cone_data
    mon.near("cone_reported", [float(cd.gamma), float(cd.cone_angle)], [gam, ca], 1e-10)
    mon.near("cone_reported", (np.asarray(cd.center, float) - apex) / m, np.zeros(3), 1e-8 * R)
    mon.near("cone_reported", float(cd.R) / m, R, 1e-8 * R)
    rough = 4e-3 if uc else 2e-4
    zref = 0.5 * (zv[0] + zv[-1])
    secs = []
    for f in c["f"]:
        z = float(zv[0] + f * (zv[-1] - zv[0]))
        k = 1 - z * 2 * math.sin(gam) / N             # similarity factor about the apex
        if abs(z) > 1e-9:
            mon.cover("upper")
        pr, parts = tooth_parts(g, z, 60)
        names = [q for q in ("rd_curve", "tooth_curve", "ra_curve", "tooth_curve_mirror") if len(parts[q])]
        world = {q: applyT(applyT(parts[q], pr.transform), T) for q in names}
        ref = {q: (world[q] - apex) @ O / (m * k) for q in names}          # apex frame, size of the reference section
        Rr = np.concatenate([np.linalg.norm(ref[q], axis=1) for q in names])
        # joints of a root cut by an approximate rack tip may lift off the sphere slightly
        mon.near("on_sphere", Rr, np.full(len(Rr), R), 1e-6 * R if not uc else 2e-3, z=z)
        pol = {q: np.arccos(np.clip(-ref[q][:, 2] / np.linalg.norm(ref[q], axis=1), -1, 1)) for q in names}
        hl = {q: (pol[q] - gam) * R for q in names}
        tip = float(hl["tooth_curve"].max())
        mon.le("tip_on_sphere", tip, ha + 1e-4)
        az = {q: np.arctan2(ref[q][:, 1], ref[q][:, 0]) for q in names}
        if "ra_curve" in names:
            mon.near("tip_on_sphere", hl["ra_curve"], np.full(len(hl["ra_curve"]), float(np.median(hl["ra_curve"]))), 1e-5)
            w = float(np.linalg.norm(parts["ra_curve"][0] - parts["ra_curve"][-1]))
            if w > 0.3 and float(np.median(hl["ra_curve"])) < ha - 1e-4:
                mon.fail("tip_on_sphere", tip=float(np.median(hl["ra_curve"])), want=ha, width=w)
        if "rd_curve" in names:
            mon.near("root_on_sphere", hl["rd_curve"], np.full(len(hl["rd_curve"]), -hd), rough)
        ro = pr.ro_curve
        if ro is not None and getattr(ro, "active", True):
            w = applyT(applyT(sample(ro, 8), pr.transform), T)
            mon.near("rim_on_sphere", np.linalg.norm(w - apex, axis=1) / (m * k), np.full(len(w), R), 1e-6 * R)
        # thickness on the pitch circle, measured in the section's own (tooth centred) frame
        q = (parts["tooth_curve"] - np.array([0, 0, R * math.cos(gam)]))
        a = np.arctan2(q[:, 1], q[:, 0])
        pq = np.arccos(np.clip(-q[:, 2] / np.linalg.norm(q, axis=1), -1, 1))
        j = np.where((pq[:-1] < gam) & (pq[1:] >= gam))[0]
        zc = (z - zref) / (zv[-1] - zv[0]) * 2
        half = PI / (2 * N) - (kw.get("backlash", 0.0) + kw.get("crowning", 0.0) * 1e-3 * zc ** 2) / (N / 2)
        if len(j):
            i0 = int(j[0])
            t = (gam - pq[i0]) / (pq[i0 + 1] - pq[i0])
            mon.near("thickness", -(a[i0] + t * (a[i0 + 1] - a[i0])) * N / 2, half * N / 2, 3e-3, z=z)
        else:
            mon.fail("thickness", "flank does not cross the pitch circle", lo=float(pq.min()), hi=float(pq.max()))
        if cls == "BevelGear":
            env, cusp = crown_envelope(gam, al, half)
            lowest = max(cusp, gam - hd / R)
            if gam - hd / R < cusp and not uc:
                mon.cover("below_cusp")
            d = np.linalg.norm(q, axis=1)
            top = gam + (ha - 1.2 * kw.get("tip_fillet", 0.0) - 1e-3) / R
            if uc:
                lowest = max(lowest + 1e-4, gam + (0.25 if exc > -0.15 else -0.5 * hd) / R if exc > -0.4 else gam - 0.5 * hd / R)
                if exc > 0.3:
                    lowest = gam + 0.45 / R
            rf = kw.get("root_fillet", 0.0)
            sel = (pq > lowest + (2.5 * rf + 2e-3) / R) & (pq < min(top, tip / R + gam - (1.2 * kw.get("tip_fillet", 0) + 1e-3) / R))
            if sel.any():
                e = dist_to_polyline(q[sel] / d[sel, None], env) * R
                mon.le("flank_octoid", e, 2e-5 * max(1.0, R / 20), z=z, exc=exc)
        secs.append((z, k, ref, pr))
        ca_r = [float(v) for v in np.asarray(g.cone_angles_at_z(z), float)]
        mon.near("angles_reported", ca_r[2], gam, 1e-6 * 10)
        mon.near("angles_reported", [ca_r[1], ca_r[3]], [gam - hd / R, gam + tip / R], 1e-3 if kw.get("tip_fillet") or tip < ha - 1e-6 else 1e-5 + 2 * abs(tip - ha) / R + rough / R)
    # the two sections are similar about the apex, turned by the spiral
    (z0, k0, A, p0), (z1, k1, B, p1) = secs
    if not kw.get("crowning"):
        tw = float(p1.transform.angle - p0.transform.angle)
        mon.near("twist", tw, (z1 - z0) * math.tan(kw.get("helix_angle", 0.0)) / (N / 2), 1e-9)
        for q in set(A) & set(B):
            if A[q].shape == B[q].shape:
                mon.near("similar", B[q], A[q] @ rotz(tw).T, 2e-6 * R if not uc else 1e-4 * max(1, R / 10), piece=q)
    if c["lim"] and cls == "BevelGear":
        k = {a: b for a, b in kw.items() if a not in ("cone_angle", "helix_angle", "crowning", "z_anchor", "root_fillet", "tip_fillet")}
        k["height"] = m
        if (hd - N / 2 * math.sin(al) ** 2) < (0.5 if uc else 0.9):
            import gggears as gg
            cyl = gg.InvoluteGear(**k)
            for eps in (2e-2, 2e-3):
                try:
                    bev = gg.BevelGear(cone_angle=eps, **k)
                except Exception as e:
                    mon.fail("limit_cylinder", f"{type(e).__name__}: {e}", eps=eps)
                    continue
                a, b = tooth_parts(cyl, 0.0, 60)[1], tooth_parts(bev, 0.0, 60)[1]
                for q in ("tooth_curve", "ra_curve", "rd_curve"):
                    if len(a[q]) and len(b[q]):
                        line = a[q].copy()
                        line[:, 2] = 0
                        P = b[q].copy()
                        mon.le("limit_cylinder", np.abs(P[:, 2]), 3 * eps)
                        P[:, 2] = 0
                        mon.le("limit_cylinder", dist_to_polyline(P, line), 3 * eps + (6e-3 if uc else 1e-3), piece=q, eps=eps)
