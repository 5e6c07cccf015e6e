"""Closed outlines around one tooth and one pitch: every outline the library offers is walked piece by piece and compared with an outline assembled
by own arithmetic from the flanks (arcs about the axis, radial lines or meridians), in a plane development; the profile is re-read afterwards."""
import math
import numpy as np
import shapely
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen
from . import c10, c11

PROP = "C36"
TECHNIQUE = "runtime monitoring: topology, area and side-effect monitors over the closed outlines of real tooth profiles against independently assembled outlines"
RULE = "Case = one gear of any family and a section height. Non-trivial = all closed outlines of the section were walked, found closed and simple, and compared with the assembled outline."
COUNT = {"quick": 110, "thorough": 5000}
NAMES = ["profile_closed", "tooth_profile_closed", "tooth_profile_closed_outer", "tooth_profile_closed_ring", "closed_function"]
REQUIRED = ["joint", "closed", "simple", "on_outline", "covers_outline", "area", "reading_twice", "profile_untouched", "centerline", "ring_split", "ring", "bevel", "cycloid", "helical", "pointed_tip", "no_root_land", "planar_total", "on_surface"] + NAMES
CASE_TIMEOUT = 60


def draw(r, i, tier):
    return c11.draw(r, i, tier)


def corpus(tier):
    return [dict(c) for c in c11.corpus(tier) if c["what"] == 0] + [dict(spec=dict(cls=k, kw=kw, fam="x"), f=f, place=dict(pos=[0, 0, 0], rot=None, angle=0.0), what=0) for k, kw, f in (
        ("SpurGear", dict(number_of_teeth=20), 0.0), ("SpurRingGear", dict(number_of_teeth=40, height=2.0), 0.0), ("BevelGear", dict(number_of_teeth=20, cone_angle=1.5), 0.0), ("BevelGear", dict(number_of_teeth=30, cone_angle=2.6, height=2.0), 1.0),
        ("CycloidGear", dict(number_of_teeth=20), 0.0), ("CycloidGear", dict(number_of_teeth=40, inside_teeth=True), 0.0), ("HelicalGear", dict(number_of_teeth=17, helix_angle=0.4, height=3.0, module=2.0), 0.6),
        ("SpurGear", dict(number_of_teeth=20, root_fillet=0.2, tip_fillet=0.1, enable_undercut=False), 0.0))]


def arc(r, a0, a1, n=400):
    t = np.linspace(a0, a1, n)
    return np.stack([r * np.cos(t), r * np.sin(t)], 1)


def run(c, mon):
    import gggears.gggears_core as core
    s = c["spec"]
    cls, kw = s["cls"], s["kw"]
    ha, hd, ho, ring, cb = c10.limits(s)
    N = kw["number_of_teeth"]
    rp = N / 2
    gam = kw.get("cone_angle", 0) / 2
    R = rp / math.sin(gam) if gam else 0.0
    if cls not in ("CycloidGear", "BevelGear"):
        sp, _, _ = c10.spec_of(cls, kw, c["f"])
        uc = kw.get("enable_undercut", not ring)
        if sp.half < 0.3 * PI / (2 * N) or sp.half > 1.6 * PI / (2 * N) or (uc and sp.undercut_excess() > 0.7) or (not uc and sp.rf < sp.rb - 0.9) or sp.rf < 1 or sp.tip_point_radius() < rp + 0.3:
            raise Skip("outside the sensible domain")
        if kw.get("tip_fillet", 0) > 0 and sp.tip_point_radius() - 0.1 < sp.ra + 0.3:
            raise Skip("tip fillet on a pointed tooth")
        if sp.tip_point_radius() - kw.get("tip_truncation", 0.1) < sp.ra:
            mon.cover("pointed_tip")
    g = make(dict(cls=cls, kw=kw, **c["place"]))
    zv = g.gearcore.z_vals
    z = float(zv[0] + c["f"] * (zv[-1] - zv[0]))
    pr, parts = tooth_parts(g, z, 400)
    fl = lambda P: c11.flatten(np.asarray(P, float), gam, R)
    rd, F, T, M = (fl(parts[k]) if len(parts[k]) else np.zeros((0, 2)) for k in ("rd_curve", "tooth_curve", "ra_curve", "tooth_curve_mirror"))
    if not len(rd):
        mon.cover("no_root_land")
    mon.cover(*(["ring"] if ring else []), *(["helical"] if "Helical" in cls else []), *(["bevel"] if gam else []), *(["cycloid"] if cls == "CycloidGear" else []))
    pitch = 2 * PI / N
    Rz = lambda P, a: P @ rotz(a)[:2, :2].T
    ang = lambda p: math.atan2(p[1], p[0])
    rad = lambda p: math.hypot(p[0], p[1])
    r0, rt = rad(F[0]), rad(F[-1])
    aF, aM = ang(F[0]), ang(M[-1])                      # aM = -aF by symmetry
    ro = rad(fl(np.asarray(pr.ro_curve(np.array([0.5])), float))[0])
    if abs(ro - r0) < 0.02 or ro < 0.02:
        raise Skip("ring circle coincides with the root or the axis")
    body = [F] + ([T] if len(T) else []) + [M]
    prev = Rz(M, -pitch)
    want = {"tooth_profile_closed": np.vstack(body + [arc(r0, aM, aF)]),
            "tooth_profile_closed_outer": np.vstack([prev] + ([rd] if len(rd) else []) + [F, arc(rt, ang(F[-1]), ang(prev[0]))]),
            "tooth_profile_closed_ring": np.vstack(body + [arc(ro, aM, aF)]),
            "profile_closed": np.vstack(([rd] if len(rd) else []) + body + [arc(ro, aM, aM - pitch)])}
    want["closed_function"] = want["profile_closed"]
    cone = g.gearcore.shape_recipe(z).cone
    ext = core.GearRefProfileExtended.from_refprofile(pr, cone)
    before = np.asarray(pr.profile(np.linspace(0, 1, 101)), float)
    ro_before = np.asarray(pr.ro_curve(np.linspace(0, 1, 11)), float)
    conn = [np.asarray(getattr(ext, k)(np.linspace(0, 1, 7)), float) for k in ("ro_connector_0", "ro_connector_1", "ro_connector_2", "rd_connector", "ra_connector", "ro_curve_tooth", "ro_curve_dedendum", "tooth_centerline")]
    PARTS = ("ro_curve", "rd_curve", "ra_curve", "tooth_curve", "tooth_curve_mirror", "ro_connector_0", "ro_connector_1", "ro_connector_2", "rd_connector", "ra_connector", "ro_curve_tooth", "ro_curve_dedendum")
    snap = lambda: [np.asarray(getattr(ext, k)(np.linspace(0, 1, 7)), float) if float(getattr(ext, k).length) > 1e-9 else np.zeros(3) for k in PARTS]
    parts_before = snap()
    A = {}
    for name in NAMES:
        W = shapely.Polygon(dedup(want[name], 1e-9))
        edge = shapely.LinearRing(dedup(want[name], 1e-9))
        proper = W.is_valid and W.buffer(-1e-3).geom_type == "Polygon" and abs(W.buffer(-1e-3).buffer(1e-3).area - W.area) < 1e-3 * W.length   # a radial line may run along a radial flank
        if not proper:
            mon.cover("touching_outline")
        get = (lambda: core.generate_profile_closed(pr, cone)) if name == "closed_function" else (lambda: getattr(ext, name))
        ch = get()
        lv = [l for l in leaves(ch) if getattr(l, "active", True) and float(l.length) > 1e-9]
        P = [np.asarray(l(np.linspace(0, 1, 400)), float) for l in lv]
        mon.cover(name)
        for p, q in zip(P, P[1:] + P[:1]):
            mon.near("joint", p[-1], q[0], 3e-5, which=name)
        mon.true("closed", bool(ch.is_closed) and np.linalg.norm(np.asarray(ch(0.0), float) - np.asarray(ch(1.0), float)) < 1e-4, which=name)
        Q3 = np.vstack(P)
        sph = np.abs(np.linalg.norm(Q3 - [0, 0, R * math.cos(gam)], axis=1) - R) if gam else np.abs(Q3[:, 2])
        mon.le("on_surface", float(sph.max()), 2e-5 * max(1, rp), which=name)
        Q = fl(Q3)
        G = shapely.Polygon(dedup(Q, 1e-7))
        if proper and not G.is_valid:
            G = clean(G, 1e-6)
        if proper:
            mon.true("simple", G.is_valid, which=name)
        mon.le("on_outline", float(shapely.distance(shapely.points(Q), edge).max()), 4e-4, which=name)
        t = np.linspace(0, 1, 500)
        mon.le("on_outline", float(shapely.distance(shapely.points(fl(np.asarray(ch(t), float))), edge).max()), 4e-4, which=name, how="chain")
        mon.le("covers_outline", float(shapely.distance(shapely.points(want[name]), shapely.LinearRing(dedup(Q, 1e-9))).max()), 1e-3, which=name)
        if proper or name == "profile_closed":
            mon.near("area", G.area, W.area, 3e-4 * W.length, which=name)
        A[name] = G.area
        # reading is free of side effects
        first = np.asarray(ch(t[::5]), float)
        now = snap()
        for k, a, b in zip(PARTS, parts_before, now):
            mon.near("profile_untouched", b, a, 0.0, which=name, part=k)
        ch2 = get()
        mon.near("reading_twice", np.asarray(ch2(t[::5]), float), first, 1e-9 * rp, which=name)
        mon.near("reading_twice", np.asarray(ch(t[::5]), float), first, 1e-9 * rp, which=name, how="the first outline after the second was read")
    mon.near("profile_untouched", np.asarray(pr.profile(np.linspace(0, 1, 101)), float), before, 0.0)
    mon.near("profile_untouched", np.asarray(pr.ro_curve(np.linspace(0, 1, 11)), float), ro_before, 0.0)
    after = [np.asarray(getattr(ext, k)(np.linspace(0, 1, 7)), float) for k in ("ro_connector_0", "ro_connector_1", "ro_connector_2", "rd_connector", "ra_connector", "ro_curve_tooth", "ro_curve_dedendum", "tooth_centerline")]
    for a, b in zip(conn, after):
        mon.near("profile_untouched", b, a, 0.0)
    # the ring arc is split at the foot of the tooth, the centre line runs in the symmetry plane from root to tip
    oc0, oc1 = fl(conn[6]), fl(conn[5])
    mon.near("ring_split", [ang(oc0[0]), ang(oc0[-1]), ang(oc1[0]), ang(oc1[-1])], [aM - pitch, aF, aF, aM], 1e-6)
    cl = fl(conn[7])
    mon.near("centerline", cl[:, 1], 0.0, 1e-6 * rp)
    mon.near("centerline", [cl[0, 0], cl[-1, 0]], [r0, rad(T[len(T) // 2]) if len(T) else rt], 2e-3)
    if gam == 0:
        # one pitch times the number of teeth is the whole gear between its boundary and the ring circle
        B = shapely.Polygon(dedup(np.vstack([Rz(np.vstack(([rd] if len(rd) else []) + body), pitch * k) for k in range(N)]), 1e-9))
        mon.near("planar_total", A["profile_closed"] * N, abs(B.area - PI * ro * ro), 1e-3 * N * rp ** 0.5 + 3e-4 * B.length)
