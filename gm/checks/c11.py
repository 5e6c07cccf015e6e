"""Boundary topology: joints, closure, simplicity, N-fold repetition, one turn; the continuous function, the chain and the CAD wire
trace the same curve, each covering it exactly once. Oracle: polyline assembled by own arithmetic from the pieces of one pitch,
developed onto a plane (stereographic from the cone apex for bevel gears)."""
import math
import numpy as np
import shapely
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen
from . import c10

PROP = "C11"
TECHNIQUE = "runtime monitoring: topology monitor over boundaries, cross-checking chain, continuous function and CAD wire"
RULE = ("Case = one gear of any family, pose and section height. Non-trivial = the assembled boundary was checked for closure and simplicity and at "
        "least one of chain, continuous function and wire was traced along it.")
COUNT = {"quick": 300, "thorough": 5000}
REQUIRED = ["joint", "pitch_joint", "simple", "one_turn", "chain_on_boundary", "chain_covers", "cont_on_boundary", "cont_covers", "cont_monotone", "wire_on_boundary", "wire_closed", "wire_length",
            "ring", "bevel", "cycloid", "helical", "many_teeth", "pointed_tip", "no_root_land", "chain_closed", "cont_closed", "slice_chain"]
CASE_TIMEOUT = 60


def draw(r, i, tier):
    k = i % 16
    if k >= 13:
        c = c10.draw(r, 13 + i * 16, tier)
        if r.random() < 0.4:
            c["spec"]["kw"].update(number_of_teeth=r.randint(6, 14), profile_shift=0.0, dedendum_coefficient=1.25, pressure_angle=28 * PI / 180, enable_undercut=True, addendum_coefficient=1.0)
    else:
        s = gen.family_spec(r, gen.FAMILIES[k], fancy=r.random() < 0.7, big=r.random() < 0.3)
        c = dict(spec=s, f=r.choice([0.0, 1.0, round(r.random(), 3)]), place=gen.placement(r))
    c["what"] = i % 3
    return c


def corpus(tier):
    out = []
    for w in range(3):
        out.append(dict(spec=dict(cls="SpurGear", kw=dict(number_of_teeth=150, module=0.5), fam="spur"), f=0.0, place=dict(pos=[3, 1, 0], rot=None, angle=0.2), what=w))
        out.append(dict(spec=dict(cls="SpurGear", kw=dict(number_of_teeth=12, pressure_angle=30 * PI / 180, dedendum_coefficient=1.3, tip_truncation=0.0, addendum_coefficient=1.4), fam="narrow"), f=0.0, place=dict(pos=[3, 1, 0], rot=[.1, .2, .7], angle=0.2), what=w))
        out.append(dict(spec=dict(cls="SpurGear", kw=dict(number_of_teeth=20, root_fillet=0.7, enable_undercut=False), fam="bigfillet"), f=0.0, place=dict(pos=[3, 1, 0], rot=[.1, .2, .7], angle=0.2), what=w))
        out.append(dict(spec=dict(cls="BevelGear", kw=dict(number_of_teeth=16, cone_angle=PI / 2), fam="bevel"), f=1.0, place=dict(pos=[3, 1, 0], rot=[.1, .9, .7], angle=0.2), what=w))
    return out


def flatten(P, gam, R):
    """gear-slice coordinates -> plane (isometric enough near the boundary, one to one)"""
    if gam == 0:
        return P[:, :2]
    ap = np.array([0, 0, R * math.cos(gam)])
    q = (P - ap) / R
    return 2 * R * q[:, :2] / (1 - q[:, 2])[:, None]      # from the far pole: the bottom of the sphere is the origin


def run(c, mon):
    s = c["spec"]
    cls, kw = s["cls"], s["kw"]
    ha, hd, ho, ring, cb = c10.limits(s)
    N = kw["number_of_teeth"]
    mt = kw.get("module", 1.0) / cb
    rp = N / 2
    gam = kw.get("cone_angle", 0) / 2
    R = rp / math.sin(gam) if gam else 0.0
    if cls not in ("CycloidGear", "BevelGear"):
        sp, _, _ = c10.spec_of(cls, kw, c["f"])
        uc = kw.get("enable_undercut", not ring)
        if sp.half < 0.3 * PI / (2 * N) or sp.half > 1.6 * PI / (2 * N) or (uc and sp.undercut_excess() > 0.7) or (not uc and sp.rf < sp.rb - 0.9) or sp.rf < 1 or sp.tip_point_radius() < rp + 0.3:
            raise Skip("outside the sensible domain")
        if kw.get("tip_fillet", 0) > 0 and sp.tip_point_radius() - 0.1 < sp.ra + 0.3:
            raise Skip("tip fillet on a pointed tooth")
        if sp.tip_point_radius() - kw.get("tip_truncation", 0.1) < sp.ra:
            mon.cover("pointed_tip")
    g = make(dict(cls=cls, kw=kw, **c["place"]))
    zv = g.gearcore.z_vals
    z = float(zv[0] + c["f"] * (zv[-1] - zv[0]))
    n = 60
    pr, parts = tooth_parts(g, z, n)
    seq = [parts[k] for k in ("rd_curve", "tooth_curve", "ra_curve", "tooth_curve_mirror") if len(parts[k])]
    if not len(parts["rd_curve"]):
        mon.cover("no_root_land")
    for p, q in zip(seq[:-1], seq[1:]):
        mon.near("joint", p[-1], q[0], 1e-6)
    fl = [np.asarray(l(np.array([0.0, 1.0])), float) for l in leaves(pr.tooth_curve) if getattr(l, "active", True)]
    for p, q in zip(fl[:-1], fl[1:]):
        mon.near("joint", p[-1], q[0], 2e-5)
    pitch = np.vstack(seq)
    mon.near("pitch_joint", pitch[-1], pitch[0] @ rotz(2 * PI / N).T, 1e-6)
    B = np.vstack([pitch @ rotz(2 * PI * k / N).T for k in range(N)])
    F = dedup(flatten(B, gam, R), 1e-7)
    pg = shapely.Polygon(F)
    ok = pg.is_valid or clean(pg, 1e-6).is_valid
    mon.true("simple", ok)
    if not ok:
        return
    a = np.unwrap(np.arctan2(F[:, 1], F[:, 0]))
    mon.near("one_turn", [a[-1] - a[0] + ((a[0] + 2 * PI - a[-1]) if abs(a[0] + 2 * PI - a[-1]) < 0.5 else 9), float(pg.contains(shapely.Point(0, 0)))], [2 * PI, 1.0], 1e-9)
    pn = tooth_parts(g, z, 400)[1]
    fine = dedup(np.vstack([pn[k] for k in ("rd_curve", "tooth_curve", "ra_curve", "tooth_curve_mirror") if len(pn[k])]), 1e-9)
    f1 = dedup(flatten(fine, gam, R), 1e-9)
    Lp = float(np.sum(np.linalg.norm(np.diff(f1, axis=0), axis=1)))
    ls = shapely.LineString(dedup(np.vstack([f1 @ rotz(2 * PI * k / N)[:2, :2].T for k in (-1, 0, 1)]), 1e-9))
    L = Lp * N
    a0 = math.atan2(f1[0][1], f1[0][0])

    def locate(f2):
        """(distance, arc position along the whole boundary) of planar points, by rotation into the reference pitch"""
        k = np.floor(((np.arctan2(f2[:, 1], f2[:, 0]) - a0) % (2 * PI)) / (2 * PI / N))
        ca, sa = np.cos(-2 * PI * k / N), np.sin(-2 * PI * k / N)
        q = shapely.points(np.stack([ca * f2[:, 0] - sa * f2[:, 1], sa * f2[:, 0] + ca * f2[:, 1]], 1))
        return shapely.distance(q, ls), (shapely.line_locate_point(ls, q) - Lp + k * Lp) % L

    cen, Rm, ang, sc = pose(g)
    tr = pr.transform

    def back(W):
        """world -> slice reference -> plane"""
        P = (np.asarray(W, float) - cen) / sc @ (Rm @ rotz(ang))
        P = (P - np.asarray(tr.center, float)) / float(tr.scale) @ (np.asarray(tr.orientation, float) @ rotz(float(tr.angle)))
        return flatten(P, gam, R), P

    tol = 3e-4
    if gam == 0:
        hz = lambda P: np.abs(P[:, 2])
    else:
        hz = lambda P: np.abs(np.linalg.norm(P - [0, 0, R * math.cos(gam)], axis=1) - R)

    def trace(name, W, monotone=True, cover_gap=None):
        f2, P = back(W)
        d, u = locate(f2)
        mon.le(name + "_on_boundary", float(np.max(d)), tol, N=N)
        mon.le(name + "_on_boundary", float(np.max(hz(P))), 1e-6 * max(1, rp))
        if monotone:
            st = np.diff(u) % L
            st = np.where(st > 0.9 * L, st - L, st)
            mon.le(name + "_monotone", float(-np.min(st)), 1e-3)
            mon.near(name + "_covers", float(np.sum(st)), L * (1 if len(W) else 0), max(2e-3, 2e-3 * L))
        if cover_gap:
            su = np.sort(u)
            mon.le(name + "_covers", float(max(np.max(np.diff(su)), su[0] + L - su[-1])), cover_gap)
        return u

    mon.cover(*(["ring"] if ring else []), *(["helical"] if "Helical" in cls else []), *(["bevel"] if gam else []), *(["cycloid"] if cls == "CycloidGear" else []), *(["many_teeth"] if N >= 60 else []))
    if c["what"] == 0:
        ch = g.gearcore.boundary_at_z(z, continuous=False)
        m = min(4000, 60 * N)
        t = np.linspace(0, 1, m)
        W = np.asarray(ch(t), float)
        trace("chain", W, monotone=True, cover_gap=3.5 * L / m + 2e-3)
        mon.near("chain_closed", W[0], W[-1], 1e-5 * mt)
    elif c["what"] == 1:
        co = g.gearcore.boundary_at_z(z, continuous=True)
        m = min(600, 25 * N)
        t = np.linspace(0, 1, m, endpoint=False) + 0.3 / m
        W = np.asarray([co(float(v)) for v in t], float)
        trace("cont", W, monotone=False, cover_gap=4.0 * L / m + 5e-3)
        u = locate(back(W)[0])[1]
        st = np.diff(u) % L
        st = np.where(st > 0.9 * L, st - L, st)
        mon.le("cont_monotone", float(-np.min(st)), 2e-3)
        mon.near("cont_closed", co(0.0), co(1.0 - 1e-12), 2e-4 * mt)
        cs = np.asarray(pr.profile(np.linspace(0, 1, 50)), float)
        mon.le("slice_chain", float(np.max(locate(flatten(cs, gam, R))[0])), tol)
    else:
        w = g.build_boundary_wire(c["f"])
        mon.true("wire_closed", bool(w.is_closed))
        es = w.edges()
        t = np.linspace(0, 1, 7)
        P = np.array([[list(e.position_at(float(v))) for v in t] for e in es])
        # NURBS approximation of the flanks of the wire: looser
        f2, Q = back(P.reshape(-1, 3))
        d, u = locate(f2)
        mon.le("wire_on_boundary", float(np.max(d)), 3e-3, N=N)
        mon.near("wire_length", float(sum(e.length for e in es)) / mt / float(tr.scale), _length3(B), 1.5e-3 * _length3(B))
        u = np.sort(u)
        mon.le("wire_covers", float(max(np.max(np.diff(u)), u[0] + L - u[-1])), 1.5)


def _length3(B):
    C = np.vstack([B, B[:1]])
    return float(np.sum(np.linalg.norm(np.diff(C, axis=0), axis=1)))
