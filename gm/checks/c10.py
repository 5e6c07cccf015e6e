"""Tip, root, pitch and rim circles measured on generated sections and compared with own formulas and with every reported radius.
Pointed teeth are included: the tip then lies the truncation amount below the point of the involute tooth."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen
from .c09 import spec_of

PROP = "C10"
TECHNIQUE = "runtime monitoring: analytic limit-circle oracle over sampled sections and reported radii"
RULE = ("Case = one gear of any family (fillets, shifts, coefficients, pointed tips), a pose and a section height. Non-trivial = tip and root of the "
        "generated section were measured and compared with formulas and reported values.")
COUNT = {"quick": 700, "thorough": 9000}
REQUIRED = ["tip_circle", "root_circle", "inside_limits", "reported_tip", "reported_root", "reported_pitch", "reported_rim", "max_outside", "pointed", "truncated", "bevel", "ring",
            "helical", "cycloid", "filleted", "named_radii", "untruncated_by_request", "cone_angles", "pitch_radius"]
FAM = gen.FAMILIES


def draw(r, i, tier):
    k = i % 16
    if k >= 13:
        # narrow tips: high shift, long addendum, small counts
        N = r.randint(9, 24)
        kw = dict(number_of_teeth=N, module=gen.module(r), addendum_coefficient=r.choice([1.0, 1.2, 1.35, 1.5]), profile_shift=round(r.uniform(0.2, 0.75), 3),
                  pressure_angle=r.choice([20, 22.5, 25, 28]) * PI / 180, tip_truncation=r.choice([0.1, 0.1, 0.02, 0.2, 0.0]), enable_undercut=r.random() < 0.7, backlash=r.choice([0, 0, 0.03]))
        s = dict(cls=r.choice(["SpurGear", "InvoluteGear", "HelicalGear"]), kw=kw, fam="narrow")
        if s["cls"] == "HelicalGear":
            kw["helix_angle"] = round(r.uniform(-.5, .5), 3)
    else:
        s = gen.family_spec(r, FAM[k], fancy=r.random() < 0.7)
        if r.random() < 0.4 and "bevel" not in s["fam"]:
            s["kw"]["addendum_coefficient"] = round(r.uniform(0.5, 1.15), 2)
            s["kw"]["dedendum_coefficient"] = round(r.uniform(0.6, 1.35), 2)
    return dict(spec=s, f=r.choice([0.0, 1.0, round(r.random(), 3)]), place=gen.placement(r))


def corpus(tier):
    P0 = dict(pos=[0, 0, 0], rot=None, angle=0)
    out = [dict(spec=dict(cls="SpurRingGear", kw=dict(number_of_teeth=52, module=2.0, root_fillet=0.0, outside_ring_coefficient=c), fam="ring"), f=0.0, place=dict(pos=[1, 2, 3], rot=[.2, .7, .1], angle=1.0)) for c in (1.5, 2.0, 3.5, 6.0)]
    out += [dict(spec=dict(cls="SpurGear", kw=dict(number_of_teeth=N), fam="spur"), f=0.5, place=P0) for N in (8, 12, 25, 100, 200)]
    return out


def limits(s):
    """(h_a, h_d, h_o) in (transverse) modules measured from the pitch circle outwards / inwards / inwards"""
    cls, kw = s["cls"], s["kw"]
    cb = math.cos(kw.get("helix_angle", PI / 6)) if "Helical" in cls else 1.0
    ringc = cls in ("SpurRingGear", "HelicalRingGear")
    x = kw.get("profile_shift", 0)
    ha = kw.get("addendum_coefficient", 1.2 if ringc else 1.0)
    hd = kw.get("dedendum_coefficient", 1.0 if ringc else 1.2)
    ring = ringc or kw.get("inside_teeth", False)
    ho = -kw.get("outside_ring_coefficient", 2.5) if cls == "SpurRingGear" else (-2 if ring else 2)
    return (ha + x) * cb, (hd - x) * cb, ho, ring, cb


def run(c, mon):
    s = c["spec"]
    cls, kw = s["cls"], s["kw"]
    ha, hd, ho, ring, cb = limits(s)
    N = kw["number_of_teeth"]
    mt = kw.get("module", 1.0) / cb
    rp = N / 2
    gam = kw.get("cone_angle", 0) / 2
    g = make(dict(cls=cls, kw=kw, **c["place"]))
    core = g.gearcore
    zv = core.z_vals
    z = float(zv[0] + c["f"] * (zv[-1] - zv[0]))
    trunc = kw.get("tip_truncation", 0.0 if cls in ("SpurRingGear",) else 0.1)
    uc = kw.get("enable_undercut", not ring and cls != "CycloidGear")
    tip = rp + ha
    pointed = False
    if cls not in ("CycloidGear", "BevelGear"):
        sp, _, _ = spec_of(cls, kw, c["f"])
        if sp.half < 0.3 * PI / (2 * N) or sp.half > 1.6 * PI / (2 * N):
            raise Skip("tooth thickness")
        rpt = sp.tip_point_radius()
        if abs(rpt - trunc - tip) < 2e-3 or (not uc and sp.rf < sp.rb - 0.9) or (uc and sp.undercut_excess() > 0.9):
            raise Skip("limit case")
        if kw.get("tip_fillet", 0) > 0 and rpt - trunc < tip + 0.3:
            raise Skip("tip fillet on a pointed tooth")
        # root width: both flanks must leave a root arc
        rr = max(sp.rf, sp.rb)
        if PI / N - (sp.half + inv(sp.alpha) - inv(math.acos(sp.rb / rr))) < (0.25 + 2.4 * kw.get("root_fillet", 0 if cls != "SpurRingGear" else .2)) / rr and not uc:
            raise Skip("no root land")
        if uc:
            T = RackTrochoid(sp)
            if -T.c[1] > PI / 2 - 0.03:
                raise Skip("no root land")
        if trunc > 0 and rpt - trunc < tip:
            tip, pointed = rpt - trunc, True
        elif rpt < tip:
            tip, pointed = rpt, True
        if tip < rp + 0.05:
            raise Skip("no addendum left")
    pr, parts = tooth_parts(g, z, 40)
    A, D, F = parts["ra_curve"], parts["rd_curve"], parts["tooth_curve"]
    if gam == 0:
        rad = lambda P: np.hypot(P[:, 0], P[:, 1])
    else:
        R = rp / math.sin(gam)
        ap = np.array([0, 0, R * math.cos(gam)])
        # distance from the pitch circle along the sphere, expressed as a radius like the cylinder
        rad = lambda P: rp + R * (np.arctan2(np.hypot(P[:, 0], P[:, 1]), ap[2] - P[:, 2]) - gam)
    root = rp - hd
    rough = 4e-3 if cls == "BevelGear" and uc else 0.0      # the root of undercut bevel teeth comes from an approximate rack tip
    tol = 3e-6 * max(1, rp)
    allr = rad(np.vstack([A, D, F, parts["tooth_curve_mirror"]]))
    if cls == "CycloidGear" or cls == "BevelGear":
        # no closed form for the pointed radius: a shortened tip must be a narrow one
        t = float(rad(F[-1:])[0])
        w = -math.atan2(F[-1][1], F[-1][0]) * math.hypot(F[-1][0], F[-1][1])
        mon.le("tip_not_above", t, tip + tol)
        if t < tip - 1e-4:
            if cls == "CycloidGear":
                mon.cover("cycloid_short")
            mon.le("short_tip_is_narrow", w, max(0.14, 1.1 * trunc))
            tip = t
        if w > 0.6 and t < rp + ha - 1e-4:
            mon.fail("tip_circle", "wide tooth cut below the addendum", tip=t, want=rp + ha)
        mon.cover("cycloid" if cls == "CycloidGear" else "bevel")
    if len(A):
        mon.near("tip_circle", rad(A), np.full(len(A), tip), tol, pointed=pointed)
    elif pointed and trunc == 0:
        mon.near("tip_circle", rad(F[-1:]), [tip], 1e-4)
    else:
        mon.fail("tip_circle", "no tip land", tip=tip)
    if len(D):
        mon.near("root_circle", rad(D), np.full(len(D), root), tol + rough + 1e-4)
    else:
        mon.fail("root_circle", "no root land")
    mon.le("inside_limits", [float(allr.max()) - tip, root - float(allr.min())], 2e-5 * max(1, rp) + rough)
    # reported
    cen, Rm, ang, sc = pose(g)
    rep = g.radii_data_gen(z)
    scz = (1 - z * 2 * math.sin(gam) / N) * mt

    def circle(name, curve, r_nom, extra=0.0):
        if gam == 0:
            want_r, zz = r_nom * mt, z * mt
        else:
            th = gam + (r_nom - rp) / R
            want_r, zz = R * math.sin(th) * scz, z * math.cos(gam) * mt + (R * math.cos(gam) - R * math.cos(th)) * scz
        mon.near(name, [float(curve.radius) - want_r] + list(np.asarray(curve.center, float) - (cen + Rm @ np.array([0, 0, zz]))), 0.0, 5e-6 * mt * max(1, rp) + extra * mt, r=want_r)
        return want_r
    wa = circle("reported_tip", rep.r_a_curve, tip)
    wd = circle("reported_root", rep.r_d_curve, root, rough + 1e-4)
    wp = circle("reported_pitch", rep.r_p_curve, rp)
    ho_eff = min(ho, rp)
    wo = circle("reported_rim", rep.r_o_curve, rp - ho_eff) if ho < rp - 0.01 else None
    mon.near("pitch_radius", [float(g.pitch_radius), float(g.rp)], rp * mt, 1e-9 * rp * mt)
    if c["f"] == 0.0 and wo is not None:
        mon.near("named_radii", [float(g.addendum_radius) - wa, float(g.dedendum_radius) - wd], 0.0, 1e-5 * mt * max(1, rp) + rough * mt)
        if gam < PI / 2 - 0.3 and "crowning" not in kw:
            mon.near("max_outside", float(g.max_outside_radius), max(wa, wo), 1e-5 * mt * max(1, rp))
    if gam and abs(gam + ha / R) < PI / 2 - 0.02:
        ca = g.cone_angles_at_z(z)
        mon.near("cone_angles", [float(v) for v in ca], [gam - ho_eff / R, gam - hd / R, gam, gam + (tip - rp) / R], 1e-4 + rough / R)
    if pointed and trunc > 0:
        mon.cover("truncated")
    if pointed:
        mon.cover("pointed")
    if trunc == 0 and not ring:
        mon.cover("untruncated_by_request")
    mon.cover(*(["ring"] if ring else []), *(["helical"] if "Helical" in cls else []), *(["filleted"] if kw.get("tip_fillet") or kw.get("root_fillet") else []))
