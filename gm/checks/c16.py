"""Flank position at the pitch circle of crowned / thinned gears against the plain twin at the same height: the displacement must be
exactly backlash + crowning/1000 * (relative height)^2, everything else must not move."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen

PROP = "C16"
TECHNIQUE = "runtime monitoring: flank displacement of crowned/thinned sections measured against the plain twin"
RULE = ("Case = a gear with crowning and/or backlash and its plain twin, five heights. Non-trivial = the flank crosses the pitch circle in both and the displacement was compared.")
COUNT = {"quick": 260, "thorough": 8000}
REQUIRED = ["flank_displacement", "root_tip_unchanged", "symmetric", "spacing", "crowned", "thinned", "solid_ends", "anchored", "not_unit_module"] + gen.FAMILIES


def draw(r, i, tier):
    fam = gen.FAMILIES[i % len(gen.FAMILIES)]
    s = gen.family_spec(r, fam, big=True)
    kw = s["kw"]
    for k in ("crowning", "backlash", "tip_fillet"):
        kw.pop(k, None)
    mode = r.randrange(4)
    cr = 0.0 if mode == 0 else round(r.uniform(-60, 140), 1)
    bl = 0.0 if mode == 1 else round(r.uniform(-0.03, 0.12), 4)
    return dict(spec=s, cr=cr, bl=bl, fs=[0.0, 0.5, 1.0, round(r.random(), 3), round(r.random(), 3)], solid=i % 26 == 0 or fam == "helical" and i % 5 == 0)


def corpus(tier):
    out = []
    for m, h, a in ((1, 5, 0), (2.5, 10, 0.5), (0.4, 1.3, 1.0), (4, 3, -0.3)):
        for cls, fam, k in (("SpurGear", "spur", {}), ("SpurRingGear", "ring", {}), ("CycloidGear", "cycloid", {}), ("HelicalGear", "helical", dict(helix_angle=0.3)),
                            ("HelicalRingGear", "herring_ring", dict(helix_angle=0.3, herringbone=True)), ("HelicalGear", "herring", dict(helix_angle=-0.3, herringbone=True)), ("BevelGear", "bevel", dict(cone_angle=1.2))):
            out.append(dict(spec=dict(cls=cls, fam=fam, kw=dict(number_of_teeth=36, module=m, height=min(h, 5 * m), z_anchor=max(a, 0) if fam == "bevel" else a, **k)), cr=100.0, bl=0.04,
                            fs=[0.0, 0.25, 0.5, 0.75, 1.0], solid=cls == "SpurGear" and m < 3))
    return out


def flank_half_angle(g, z, rp, n=140):
    pr, parts = tooth_parts(g, z, n)
    P = parts["tooth_curve"]
    r = np.hypot(P[:, 0], P[:, 1])
    a = np.arctan2(P[:, 1], P[:, 0])
    s = r - rp
    k = np.where((s[:-1] <= 0) != (s[1:] <= 0))[0]
    if len(k) != 1:
        raise Skip("flank does not cross the pitch circle once")
    k = int(k[0])
    if min(abs(s[k]), abs(s[k + 1])) < 1e-9 or k < 1 or k + 3 > len(P):     # a joint on the pitch circle
        u = s[k] / (s[k] - s[k + 1])
        return a[k] + u * (a[k + 1] - a[k]), pr, parts
    w = slice(k - 1, k + 3)
    if np.min(np.diff(s[w])) < 1e-7:
        raise Skip("degenerate flank")
    return float(np.polyfit(s[w], a[w], 3)[-1]), pr, parts


def run(c, mon):
    s = c["spec"]
    kw, fam = s["kw"], s["fam"]
    N = kw["number_of_teeth"]
    rp = N / 2
    if c["bl"] + max(c["cr"], 0) * 1e-3 > 0.5:
        raise Skip("flank vanishes")
    k1 = dict(kw, crowning=c["cr"], backlash=c["bl"])
    g0, g1 = make(dict(cls=s["cls"], kw=dict(kw, crowning=0, backlash=0))), make(dict(cls=s["cls"], kw=k1))
    mon.cover(fam, *(["crowned"] if c["cr"] else []), *(["thinned"] if c["bl"] else []), *(["anchored"] if kw.get("z_anchor") else []), *(["not_unit_module"] if kw["module"] != 1 else []))
    for f in c["fs"]:
        zv = g1.gearcore.z_vals
        z = float(zv[0] + f * (zv[-1] - zv[0]))
        zr = 2 * f - 1
        a0, _, p0 = flank_half_angle(g0, z, rp)
        a1, pr, p1 = flank_half_angle(g1, z, rp)
        # the flank (tooth_curve) sits at negative angle; thinning moves it towards the tooth axis
        # for a ring the curve bounds the gap: the solid tooth gets thinner when the gap grows
        ring = bool(g1.gearcore.tooth_param.inside_teeth)
        want = (c["bl"] + c["cr"] * 1e-3 * zr * zr) * (-1 if ring else 1)
        mon.near("flank_displacement", (a1 - a0) * rp, want, 4e-6, f=f, fam=fam, cr=c["cr"], bl=c["bl"])
        R0, R1 = np.vstack([p for p in p0.values() if len(p)]), np.vstack([p for p in p1.values() if len(p)])
        q0, q1 = np.linalg.norm(R0[:, :2], axis=1), np.linalg.norm(R1[:, :2], axis=1)
        if len(p0["ra_curve"]) and len(p1["ra_curve"]) and len(p0["rd_curve"]) and len(p1["rd_curve"]):
            t0, t1 = np.linalg.norm(p0["ra_curve"][len(p0["ra_curve"]) // 2, :2]), np.linalg.norm(p1["ra_curve"][len(p1["ra_curve"]) // 2, :2])
            land0, land1 = np.ptp(np.arctan2(p0["ra_curve"][:, 1], p0["ra_curve"][:, 0])) * rp, np.ptp(np.arctan2(p1["ra_curve"][:, 1], p1["ra_curve"][:, 0])) * rp
            # pointed teeth are truncated, their tip legitimately moves with the thickness
            if min(land0, land1) > 0.3:
                mon.near("root_tip_unchanged", t1, t0, 1e-7, which="tip", fam=fam, f=f)
            d0, d1 = np.linalg.norm(p0["rd_curve"][len(p0["rd_curve"]) // 2, :2]), np.linalg.norm(p1["rd_curve"][len(p1["rd_curve"]) // 2, :2])
            mon.near("root_tip_unchanged", d1, d0, 1e-4, which="root", fam=fam, f=f)
        F, Mi = p1["tooth_curve"], p1["tooth_curve_mirror"]
        mon.near("symmetric", [F[0] * [1, -1, 1] - Mi[-1], F[-1] * [1, -1, 1] - Mi[0]], np.zeros((2, 3)), 1e-8, fam=fam)
        mon.near("spacing", float(pr.pitch_angle), 2 * PI / N, 1e-12, fam=fam)
    if c["solid"] and fam in ("spur", "helical", "cycloid", "ring") and c["cr"] > 0:
        # the real solid: end faces have the thinned area
        part = g1.build_part() if N <= 60 else None
        if part is not None:
            m = float(g1.gearcore.transform.scale)
            A = sorted(float(f_.area) for f_ in part.faces() if str(f_.geom_type).endswith("PLANE") and abs(abs(f_.normal_at().Z) - 1) < 1e-6)[-2:]
            P = slice_gear(g1, float(g1.gearcore.z_vals[0]), 120)
            x, y = P[:, 0], P[:, 1]
            want = 0.5 * abs(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1)))
            if bool(g1.gearcore.tooth_param.inside_teeth):
                ro = float(np.linalg.norm(np.asarray(pr.ro_curve(0.5), float)[:2]))
                want = PI * ro * ro - want
            mon.near("solid_ends", np.array(A) / (want * m * m), np.ones(2), 1e-4, fam=fam)
