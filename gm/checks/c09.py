"""Flank points of real sections against the involute equation; thickness, symmetry, spacing, base circle.
Oracle: own involute / thickness formulas (normal-to-transverse conversion included)."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen

PROP = "C09"
TECHNIQUE = "runtime monitoring: analytic involute oracle over sampled flanks of generated sections"
RULE = ("Case = one cylindrical involute gear of any class and a section height. Non-trivial = at least five flank points inside the working "
        "interval were compared with the involute equation.")
COUNT = {"quick": 900, "thorough": 12000}
REQUIRED = ["on_involute", "mirror", "thickness_at_pitch", "base_radius", "base_angle", "periodic", "external", "internal", "helical", "undercut", "crowned", "thinned", "shifted", "flank_spans",
            "base_circle_at_height", "negative_count"]
CLS = ["SpurGear", "InvoluteGear", "HelicalGear", "SpurRingGear", "HelicalRingGear", "InvoluteGear-"]


def draw(r, i, tier):
    cls = CLS[i % len(CLS)]
    ring = cls in ("SpurRingGear", "HelicalRingGear", "InvoluteGear-")
    N = gen.teeth(r, 8, 150) + (20 if ring else 0)
    m = gen.module(r)
    kw = dict(number_of_teeth=N, module=m, pressure_angle=gen.pa(r), profile_shift=0 if r.random() < 0.4 else round(r.uniform(-0.4, 0.6), 3),
              height=round(m * r.choice([0.5, 1, 4]), 4), z_anchor=r.choice([0, 0, 0.5, 1, 1.4]), backlash=r.choice([0, 0, 0.02, 0.08]), crowning=r.choice([0, 0, 30, 120]),
              addendum_coefficient=r.choice([1.0, 1.0, 0.8, 1.1]) if not ring else r.choice([1.2, 1.25]), dedendum_coefficient=r.choice([1.2, 1.25, 1.35]) if not ring else r.choice([1.0, 0.9]))
    if "Helical" in cls:
        kw["helix_angle"] = round(r.choice([-1, 1]) * r.uniform(0.05, 0.8), 3)
        kw["herringbone"] = r.random() < 0.3
    if cls == "InvoluteGear" and r.random() < 0.5:
        kw["helix_angle"] = round(r.uniform(-.6, .6), 3)
    if cls == "InvoluteGear-":
        kw.update(enable_undercut=False)
        if r.random() < 0.5:
            kw["number_of_teeth"] = -N
        else:
            kw["inside_teeth"] = True
    if ring:
        kw["root_fillet"] = r.choice([0, 0.15])
    elif r.random() < 0.3:
        kw["enable_undercut"] = False
        kw["root_fillet"] = r.choice([0, 0, 0.2])
    if r.random() < 0.2 and not ring:
        kw["tip_fillet"] = 0.1
    return dict(cls=cls, kw=kw, f=round(r.random(), 3), place=gen.placement(r))


def corpus(tier):
    import random
    out = [dict(cls="SpurGear", kw=dict(number_of_teeth=N, pressure_angle=a * PI / 180), f=0.0, place=dict(pos=[0, 0, 0], rot=None, angle=0)) for N in (8, 12, 17, 18, 41, 42, 150) for a in (14.5, 20, 25)]
    out += [dict(cls="SpurGear", kw=dict(number_of_teeth=N, profile_shift=x, module=m), f=0.5, place=dict(pos=[1, 0, 0], rot=None, angle=1.0)) for N, x, m in ((10, 0.5, 2.0), (25, -0.4, 0.5), (60, 0.8, 3.0))]
    return out


def spec_of(cls, kw, f, defaults=True):
    """own transverse description of a cylindrical involute gear; returns (spec, transverse module, crowning term)"""
    ring = cls in ("SpurRingGear", "HelicalRingGear") or kw.get("inside_teeth", False) or kw["number_of_teeth"] < 0
    b = kw.get("helix_angle", PI / 6) if "Helical" in cls else 0.0
    cb = math.cos(b)
    ha = kw.get("addendum_coefficient", 1.2 if cls in ("SpurRingGear", "HelicalRingGear") else 1.0)
    hd = kw.get("dedendum_coefficient", 1.0 if cls in ("SpurRingGear", "HelicalRingGear") else 1.2)
    N = abs(kw["number_of_teeth"])
    zr = 2 * f - 1
    s = InvoluteSpec(N, math.atan(math.tan(kw.get("pressure_angle", 20 * PI / 180)) / cb), kw.get("profile_shift", 0) * cb, ha * cb, hd * cb, kw.get("backlash", 0), inside=ring)
    crown = kw.get("crowning", 0) * 1e-3 * zr * zr
    s.half -= (-1 if ring else 1) * crown / s.rp
    return s, kw.get("module", 1.0) / cb, crown


def run(c, mon):
    cls = c["cls"].rstrip("-")
    kw = c["kw"]
    s, mt, crown = spec_of(cls, kw, c["f"])
    uc = kw.get("enable_undercut", not s.inside)
    if s.half < 0.35 * PI / (2 * s.N) or s.half > 1.5 * PI / (2 * s.N):
        raise Skip("tooth thickness out of range")
    if s.tip_point_radius() < s.rp + 0.35 or s.rf < 1.0:
        raise Skip("pointed or tiny")
    if uc and s.undercut_excess() > 0.95:
        raise Skip("undercut eats the flank")
    if not uc and s.rf < s.rb - 0.45 * 2:
        raise Skip("deep root without undercut")
    g = make(dict(cls=cls, kw=kw, **c["place"]))
    zv = g.gearcore.z_vals
    z = float(zv[0] + c["f"] * (zv[-1] - zv[0]))
    pr, parts = tooth_parts(g, z, 80)
    P = parts["tooth_curve"]
    mon.near("plane_section", P[:, 2], np.zeros(len(P)), 1e-9)
    r = np.hypot(P[:, 0], P[:, 1])
    a = np.arctan2(P[:, 1], P[:, 0])
    tip = min(s.ra, s.tip_point_radius())
    lo = max(s.rb, s.rf) + 1e-6
    if uc and not s.inside and s.rb >= s.rf:
        u = undercut_radius(s)
        if u is not None and u != u:
            raise Skip("no undercut intersection")
        lo = max(lo, (u if u is not None else s.form_radius()) + 2e-3)
        mon.cover("undercut" if u else "trochoid_fillet")
    rf = kw.get("root_fillet", 0) if not uc else 0
    if rf:
        lo = max(lo, s.rf + 2.0 * rf + 0.02)
    hi = min(s.ra, s.tip_point_radius() - kw.get("tip_truncation", 0.1 if cls not in ("SpurRingGear",) else 0.0)) - 1e-6
    tf = kw.get("tip_fillet", 0)
    if tf:
        hi -= 2.0 * tf + 0.02
    sel = (r > lo) & (r < hi)
    if sel.sum() < 5:
        raise Skip("no working flank")
    rr, aa = r[sel], a[sel]
    want = -np.array([s.half_angle(q) for q in rr])
    mon.near("on_involute", rr * (aa - want), np.zeros(len(rr)), 2e-6, N=s.N)
    span = np.sort(np.concatenate([[lo], rr, [hi]]))
    mon.le("flank_spans", np.diff(span), max(0.12, 0.1 * (hi - lo)), lo=lo, hi=hi)
    mon.cover("internal" if s.inside else "external", *(["helical"] if "Helical" in cls else []), *(["crowned"] if crown else []), *(["thinned"] if s.bl else []), *(["shifted"] if s.x else []),
              *(["negative_count"] if kw["number_of_teeth"] < 0 else []))
    Q = parts["tooth_curve_mirror"]
    q = Q * [1, -1, 1]
    mon.near("mirror", [q[0][0] - P[-1][0], q[0][1] - P[-1][1], q[-1][0] - P[0][0], q[-1][1] - P[0][1]], 0.0, 1e-9)
    rq = np.hypot(Q[:, 0], Q[:, 1])
    sq = (rq > lo) & (rq < hi)
    mon.near("on_involute", rq[sq] * (np.arctan2(Q[sq, 1], Q[sq, 0]) - np.array([s.half_angle(v) for v in rq[sq]])), np.zeros(sq.sum()), 2e-6)
    # thickness on the pitch circle by interpolation of real points
    if lo < s.rp - 0.05 and hi > s.rp + 0.05:
        o = np.argsort(r[sel])
        th = 2 * s.rp * float(np.interp(s.rp, rr[o], -aa[o]))
        mon.near("thickness_at_pitch", th, PI / 2 + 2 * s.x * math.tan(s.alpha) - (-2 if s.inside else 2) * (s.bl + crown), 4e-4)
    mon.near("periodic", [float(pr.pitch_angle) * s.N, float(g.pitch_angle) * s.N], 2 * PI, 1e-10)
    # reported base quantities
    mon.near("base_radius", float(g.r_base) / mt, s.rb, 1e-6 * s.rb)
    cir = g.circle_involute_base(c["f"])
    cen, R, ang, sc = pose(g)
    tr = pr.transform
    zc = cen + R @ np.array([0, 0, float(z) * mt])
    mon.near("base_circle_at_height", [float(cir.radius) / mt - s.rb] + list((np.asarray(cir.center, float) - zc) / mt), 0.0, 1e-6 * s.rb)
    # the base angle is reported for the reference section
    f0 = (0 - zv[0]) / (zv[-1] - zv[0])
    s0, _, _ = spec_of(cls, kw, f0)
    mon.near("base_angle", float(g.angle_base), -(s0.half + inv(s0.alpha)), 1e-7)
