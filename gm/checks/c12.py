"""Fillets of real sections against an independently constructed tangent arc. Oracle: the centre is found on the circle (small
circle of the cone sphere for bevel gears) at the fillet radius from tip/root circle and at the same distance from the flank of the unfilleted twin."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen
from . import c10

PROP = "C12"
TECHNIQUE = "runtime monitoring: independent tangent-arc construction compared with filleted sections of the real library"
RULE = ("Case = one gear with a root or tip fillet and its unfilleted twin. Non-trivial = the fillet radius fits, so the tangent arc was constructed "
        "independently and compared point by point, or (oversized radius) closure and simplicity were observed.")
COUNT = {"quick": 480, "thorough": 8000}
REQUIRED = ["on_predicted", "arc_present", "tangent_ends", "rest_unchanged", "root", "tip", "bevel", "ring", "cycloid", "helical", "oversized", "oversized_joint", "rounds_correct_side", "zero_is_sharp", "undercut_tip", "full_round", "full_round_root", "full_round_tip"]


def draw(r, i, tier):
    fam = ["spur", "ring", "helical", "bevel", "cycloid", "generic_ring", "helical_ring", "cycloid_bevel", "spiral_bevel", "cycloid_ring", "spur", "helical"][i % 12]
    s = gen.family_spec(r, fam, fancy=False)
    kw = s["kw"]
    where = "root" if i % 5 < 3 else "tip"
    if fam in ("bevel", "spiral_bevel"):
        kw["number_of_teeth"] = max(kw["number_of_teeth"], 20) + (30 if where == "root" else 0)
    if s["cls"] != "CycloidGear":
        kw["enable_undercut"] = where == "tip" and not fam.endswith("ring") and r.random() < 0.5
        if "bevel" not in fam and r.random() < 0.5:
            kw["profile_shift"] = round(r.uniform(-0.2, 0.4), 3)
    else:
        kw["inside_cycloid_coefficient"] = r.choice([0.5, 0.4, 0.35])
    kw["root_fillet"] = kw["tip_fillet"] = 0.0
    rho = round(r.uniform(0.02, 0.4), 3) if r.random() < 0.8 else round(r.uniform(0.5, 0.9), 3)
    return dict(spec=s, where=where, rho=rho, f=r.choice([0.0, round(r.random(), 3)]))


def corpus(tier):
    return [dict(spec=dict(cls="SpurGear", kw=dict(number_of_teeth=N, enable_undercut=False, root_fillet=0.0, tip_fillet=0.0), fam="spur"), where=w, rho=q, f=0.0)
            for N in (24, 45, 90) for w in ("root", "tip") for q in (0.05, 0.2, 0.35, 0.8)]


def run(c, mon):
    s, rho, where = c["spec"], c["rho"], c["where"]
    cls, kw = s["cls"], s["kw"]
    ha, hd, ho, ring, cb = c10.limits(s)
    N = kw["number_of_teeth"]
    rp = N / 2
    gam = kw.get("cone_angle", 0) / 2
    if cls not in ("CycloidGear", "BevelGear"):
        sp, _, _ = c10.spec_of(cls, kw, c["f"])
        if sp.tip_point_radius() - 0.1 < sp.ra + (0.2 if where == "tip" else 0) or (not kw["enable_undercut"] and sp.rf < sp.rb - 0.8) or (kw["enable_undercut"] and sp.undercut_excess() > 0.9):
            raise Skip("pointed or deep root")
    if cls == "BevelGear" and not kw["enable_undercut"]:
        # without undercut the octoid flank turns around at its cusp (base cone): only roots above it carry a root fillet
        if gam - math.asin(math.sin(gam) * math.cos(kw.get("pressure_angle", math.radians(20)))) < (hd + 0.35) * math.sin(gam) / rp:
            raise Skip("root reaches the base cone")
    kt = dict(kw)
    kt[where + "_fillet"] = rho
    g0, g = make(dict(cls=cls, kw=kw)), make(dict(cls=cls, kw=kt))
    zv = g.gearcore.z_vals
    z = float(zv[0] + c["f"] * (zv[-1] - zv[0]))
    _, p0 = tooth_parts(g0, z, 600)
    pr, p1 = tooth_parts(g, z, 60)
    flank = p0["tooth_curve"]
    if gam == 0:
        R = None
        emb = lambda P: np.asarray(P, float)[:, :2]
        dist = lambda a, B: np.hypot(B[:, 0] - a[0], B[:, 1] - a[1])
        rad = lambda P: np.hypot(P[:, 0], P[:, 1])
        point = lambda q, th: np.array([q * math.cos(th), q * math.sin(th)])
        d_arc = rho
    else:
        R = rp / math.sin(gam)
        ap = np.array([0, 0, R * math.cos(gam)])
        emb = lambda P: (np.asarray(P, float) - ap) / R
        dist = lambda a, B: R * 2 * np.arcsin(np.clip(np.linalg.norm(B - a, axis=1) / 2, 0, 1))
        rad = lambda P: R * np.arctan2(np.hypot(P[:, 0], P[:, 1]), -P[:, 2])
        point = lambda q, th: np.array([math.sin(q / R) * math.cos(th), math.sin(q / R) * math.sin(th), -math.cos(q / R)])
        d_arc = R * math.asin(rho / R)
    FL = emb(flank)
    ang = lambda P: np.arctan2(P[:, 1], P[:, 0])
    q_root, q_tip = float(rad(FL[:1])[0]), float(rad(FL[-1:])[0])
    a_root, a_tip = float(ang(FL[:1])[0]), float(ang(FL[-1:])[0])
    mon.cover(where, *(["bevel"] if gam else []), *(["ring"] if ring else []), *(["cycloid"] if cls == "CycloidGear" else []), *(["helical"] if "Helical" in cls else []), *(["undercut_tip", "full_round", "full_round_root", "full_round_tip"] if kw.get("enable_undercut") and where == "tip" else []))
    if not len(p0["rd_curve"]) or not len(p0["ra_curve"]):
        raise Skip("no land in the twin")
    # centre of the fillet: slide along the parallel circle away from the corner until it touches the flank
    if where == "root":
        q, a_from, a_to = q_root + d_arc, a_root, -PI / N
    else:
        q, a_from, a_to = q_tip - d_arc, a_tip, 0.0
    f = lambda th: float(np.min(_seg(dist, point(q, th), FL))) - d_arc
    # start right next to the flank
    k = int(np.argmin(np.abs(rad(FL) - q)))
    lo, hi = float(ang(FL[k:k + 1])[0]), a_to
    fits = f(hi) > 1e-3 and f(lo) < 0
    if fits:
        for _ in range(50):
            mid = 0.5 * (lo + hi)
            lo, hi = (mid, hi) if f(mid) < 0 else (lo, mid)
        th = hi
        near = FL[int(np.argmin(dist(point(q, th), FL)))]
        qn = float(rad(near[None])[0])
        # tangent point must be inside the flank, and the radius comfortably smaller than the land
        if where == "root":
            fits = q_root + 1e-3 < qn < q_tip - 0.05 and th > -PI / N + 0.09 / rp
        else:
            fits = q_root + 0.05 < qn < q_tip - 1e-3 and th < -0.09 / rp
    T = emb(p1["tooth_curve"])
    W = emb(p1["rd_curve"]) if where == "root" else emb(p1["ra_curve"])
    if not fits:
        mon.cover("oversized")
        seq = [p1[k] for k in ("rd_curve", "tooth_curve", "ra_curve", "tooth_curve_mirror") if len(p1[k])]
        for a_, b_ in zip(seq[:-1], seq[1:]):
            mon.near("oversized_joint", a_[-1], b_[0], 1e-6)
        # a radius that finds no room on the land gives one arc touching both neighbouring flanks
        mid = a_to
        F = lambda qq: float(np.min(_seg(dist, point(qq, mid), FL))) - d_arc
        if f(a_to) < -0.03 and gam == 0 and not kw.get("enable_undercut"):
            lo, hi = (q, q_tip - 0.1) if where == "root" else (q, q_root + 0.1)
            if F(lo) < 0 < F(hi):
                for _ in range(60):
                    h = 0.5 * (lo + hi)
                    lo, hi = (h, hi) if F(h) < 0 else (lo, h)
                C = point(hi, mid)
                qn = float(rad(FL[int(np.argmin(dist(C, FL)))][None])[0])
                if q_root + 0.05 < qn < q_tip - 0.05 and abs(hi - q) < 1.0:
                    mon.cover("full_round_" + where)
                    dF = np.array([np.min(_seg(dist, p, FL)) for p in T])
                    qT = rad(T)
                    low = qT < qn if where == "root" else qT > qn
                    err = np.where(low, np.minimum(np.abs(dist(C, T) - d_arc), np.where(np.abs(qT - qn) < 4e-3, dF, 9)), dF)
                    mon.near("full_round", err, np.zeros(len(err)), 3e-4, rho=rho, where=where)
                    mon.near("full_round", float(ang(T[:1] if where == "root" else T[-1:])[0]), mid, 1e-5, what="end on the symmetry line")
                    mon.le("full_round", 8, int((low & (np.abs(dist(C, T) - d_arc) < 3e-4)).sum()), what="points")
        return
    C = point(q, th)
    mon.cover("fits")
    dF = np.array([np.min(_seg(dist, p, FL)) for p in T])
    dA = np.abs(dist(C, T) - d_arc)
    aT, qT = ang(T), rad(T)
    # zone of the arc: between the two tangent points
    if where == "root":
        in_arc = (qT < qn + 2e-3) & (aT > th - 2e-3 / rp)
        keep = qT > qn + 2e-3
    else:
        in_arc = (qT > qn - 2e-3) & (aT < th + 2e-3 / rp)
        keep = qT < qn - 2e-3
    err = np.where(in_arc, np.minimum(dA, np.where(np.abs(qT - qn) < 4e-3, dF, 9)), dF)
    mon.near("on_predicted", err, np.zeros(len(err)), 2e-4, rho=rho, where=where)
    mon.near("rest_unchanged", dF[keep], np.zeros(int(keep.sum())), 1e-4)
    zone = T[in_arc & (dA < 2e-4)]
    mon.le("arc_present", 10, len(zone))
    # both ends: on the circle at the angle of the centre, on the flank at the nearest point
    end = T[0] if where == "root" else T[-1]
    mon.near("tangent_ends", [float(rad(end[None])[0]) - (q_root if where == "root" else q_tip), rp * (float(ang(end[None])[0]) - th)], 0.0, 1e-3 if not gam else 3e-3)
    if len(W):
        mon.near("land_unchanged", rad(W), np.full(len(W), q_root if where == "root" else q_tip), 1e-4)
    # side: the fillet adds material at the root / removes it at the tip, so it never crosses the twin's flank
    if not len(zone):
        return
    m = zone[len(zone) // 2]
    i = int(np.argmin(np.abs(rad(FL) - rad(m[None])[0])))
    side = float(ang(FL[i:i + 1])[0]) - float(ang(m[None])[0])
    mon.true("rounds_correct_side", side >= -1e-6 if where == "root" else side <= 1e-6, side=side)
    # the opposite corner stays sharp
    o = T[-1] if where == "root" else T[0]
    mon.near("zero_is_sharp", o, FL[-1] if where == "root" else FL[0], 5e-3 if kw.get("enable_undercut") else 1e-4)


def _seg(dist, p, L):
    """distances of p to the polyline's segments (chord correction through projection)"""
    k = int(np.argmin(dist(p, L)))
    out = [dist(p, L[k:k + 1])]
    for a, b in ((k - 1, k), (k, k + 1)):
        if a < 0 or b >= len(L):
            continue
        u = L[b] - L[a]
        n = float(u @ u)
        if n < 1e-30:
            continue
        t = min(1.0, max(0.0, float((p - L[a]) @ u) / n))
        out.append(dist(p, (L[a] + t * u)[None]))
    return np.concatenate(out)

