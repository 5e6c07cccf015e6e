"""Conversion of library curves: random curves of every kind (trimmed, reversed, transformed, nested) are converted to CAD edges and to rational Bezier pieces by the
real converters; the result is sampled and compared, in both directions, with a dense sampling of the source curve."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import make
from .. import gen
from .. import curvegen as cg

PROP = "C25"
TECHNIQUE = "runtime monitoring: two-sided distance monitor between source curves and the CAD edges / Bezier pieces the real converters return"
RULE = "Case = one curve (kind, trim, reversal, transformation, nesting). Non-trivial = both conversions ran and were sampled at 60+ points per piece."
COUNT = {"quick": 110, "thorough": 4000}
HOW = ["plain", "trimmed", "reversed", "trim_reversed", "rotated", "mirrored", "scaled", "rot_trimmed", "rot_reversed", "rot_mirrored"]
REQUIRED = ["edge_on_curve", "curve_on_edge", "edge_ends", "edge_length", "nurb_on_curve", "curve_on_nurb", "nurb_ends", "nurb_direction", "chain_nurb", "chain_edges", "source_untouched", "vector_roundtrip", "profile_parts", "exact_arc_nurb", "line_nurb",
            "full_circle", "negative_arc", "big_arc", "nurb_control_data", "spline_points", "inactive_skipped", "inactive_no_edge", "inactive_kept"] + ["how:" + h for h in HOW] + ["kind:" + k for k in cg.SIMPLE]


def draw(r, i, tier):
    if i % 10 == 9:
        # whole tooth profiles
        s = gen.family_spec(r, gen.FAMILIES[(i // 10) % len(gen.FAMILIES)])
        return dict(mode="profile", spec=s, f=round(r.random(), 3), ext=r.random() < 0.75, pad=r.random() < 0.3)
    k = cg.SIMPLE[i % len(cg.SIMPLE)] if r.random() < 0.8 else r.choice(["line", "arc"])
    d = cg.draw(r, k)
    if k == "arc" and r.random() < 0.15:
        d["angle"] = r.choice([-1, 1]) * 2 * math.pi
    if r.random() < 0.2:
        return dict(mode="chain", items=[dict(curve=cg.draw(r), active=r.random() > 0.15) for _ in range(r.randint(2, 4))], nest=r.random() < 0.4, v=[round(r.uniform(-9, 9), 3) for _ in range(3)])
    return dict(mode="one", curve=d, how=r.choice(HOW), s=sorted([round(r.uniform(0, 0.4), 3), round(r.uniform(0.6, 1), 3)]), rot=[r.random(), r.random(), r.random()], c=[round(r.uniform(-9, 9), 3) for _ in range(3)], k=round(10 ** r.uniform(-0.7, 0.7), 3), a=round(r.uniform(-6, 6), 3))


def corpus(tier):
    import random
    out = []
    for j, h in enumerate(HOW):
        for k in ("line", "arc", "involute") + (("bezier", "octoid", "cycloid", "cycloid_cone", "spherical_involute") if j < 4 else ()):
            r = random.Random(f"c25{h}{k}")
            out.append(dict(mode="one", curve=cg.draw(r, k), how=h, s=[0.23, 0.81], rot=[.1, .7, .3], c=[1.0, -2.0, 3.0], k=1.7, a=0.8))
    for A in (2 * math.pi, -2 * math.pi, math.pi, -math.pi, 3.2, -3.2, 6.0, 0.01):
        for h in ("plain", "reversed", "rotated"):
            out.append(dict(mode="one", curve=dict(kind="arc", r=2.5, angle=A, c=[1, 2, 3], rot=[.2, .5, .9], how=1), how=h, s=[.2, .8], rot=[.1, .7, .3], c=[1.0, -2.0, 3.0], k=1.7, a=0.8))
    for j in range(4):
        r = random.Random(f"c25chain{j}")
        out.append(dict(mode="chain", items=[dict(curve=cg.draw(r), active=q != 1 or j < 2) for q in range(3)], nest=bool(j % 2), v=[1.0, -2.5, 3.25]))
    for cls, kw in (("SpurGear", dict(number_of_teeth=15)), ("HelicalRingGear", dict(number_of_teeth=30, helix_angle=0.3, height=4.0, module=2.0)), ("BevelGear", dict(number_of_teeth=18, cone_angle=1.4, height=2.0)), ("CycloidGear", dict(number_of_teeth=12))):
        for ext in (True, False):
            out.append(dict(mode="profile", spec=dict(cls=cls, kw=kw, fam="x"), f=0.6, ext=ext, pad=False))
    return out


PARTS = ("ro_curve", "rd_curve", "ra_curve", "tooth_curve", "tooth_curve_mirror")
MORE = ("ro_connector_0", "ro_connector_1", "ro_connector_2", "rd_connector", "ra_connector", "ro_curve_tooth", "ro_curve_dedendum", "tooth_centerline")


def profile(c, mon):
    import gggears.gggears_core as core
    import gggears.gggears_convert as gc
    g = make(dict(cls=c["spec"]["cls"], kw=c["spec"]["kw"]))
    zv = g.gearcore.z_vals
    z = float(zv[0]) + c["f"] * float(zv[-1] - zv[0])
    pr = g.gearcore.curve_gen_at_z(z)
    names = PARTS
    if c["ext"]:
        pr = core.GearRefProfileExtended.from_refprofile(pr, g.gearcore.shape_recipe(z).cone)
        names = PARTS + MORE
    pad = c["pad"]
    nb = gc.gearprofile_to_nurb(pr, pad_inactive=True) if pad else gc.gearprofile_to_nurb(pr)
    mon.near("profile_parts", float(nb.pitch_angle), float(pr.pitch_angle), 0.0)
    for n in names:
        a, b = getattr(pr, n), getattr(nb, n)
        if not getattr(a, "active", True) or float(a.length) < 1e-6:
            continue
        la = [x for x in leaves(a) if x.active]
        lb = [x for x in leaves(b) if x.active]
        if any(isinstance(x, type(pr.ro_curve)) and abs(getattr(x, "angle", 0)) > 2.0 for x in la):
            continue
        L = float(a.length)
        ref = applyT(np.concatenate([dense(x, 300) for x in la]), pr.transform)
        got = np.concatenate([dense(x, 60) for x in lb])
        k = 5e-3 * L * float(pr.transform.scale)
        mon.near("profile_parts", got[[0, -1]], ref[[0, -1]], 1e-5 * (1 + np.abs(ref).max()), part=n, ext=c["ext"])
        mon.le("profile_parts", dist_to_polyline(got, ref), k, part=n, ext=c["ext"])
        mon.le("profile_parts", dist_to_polyline(ref[::5], got), k + 2 * L / 60, part=n, ext=c["ext"])


def edge_pts(es, n=60):
    return [np.array([(v.X, v.Y, v.Z) for v in (e.position_at(float(t)) for t in np.linspace(0, 1, n))]) for e in es]


def flat(x):
    return [y for k in x for y in flat(k)] if isinstance(x, (list, tuple)) else [x]


def dense(cv, n=1200):
    return np.asarray(cv(np.linspace(0, 1, n + 1)), float)


def approx(cv, crv, spec):
    """size of the permitted deviation, relative to the length: exact kinds or fitted ones"""
    k = spec["kind"]
    return 0.0 if k in ("line", "arc", "bezier") else 4e-3


def compare(mon, pts, ref, tol, tag, ends=True):
    P = np.concatenate(pts)
    mon.le(tag + "_on_curve", dist_to_polyline(P, ref), tol)
    tol = tol + 2 * max((np.linalg.norm(p[:-2] - 2 * p[1:-1] + p[2:], axis=1).max() / 4 if len(p) > 2 else 0) for p in pts)
    best = np.min([dist_to_polyline(ref[::20], p) for p in pts], axis=0)
    mon.le("curve_on_" + tag, best, tol)


def run(c, mon):
    import gggears.curve as crv
    import gggears.gggears_build123d as gb
    if c["mode"] == "profile":
        return profile(c, mon)
    if c["mode"] == "chain":
        cs = [cg.build(d["curve"])[0] for d in c["items"]]
        if not any(d["active"] for d in c["items"]):
            raise Skip("all inactive")
        for x, d in zip(cs, c["items"]):
            x.active = d["active"]
        ch = crv.CurveChain(crv.CurveChain(*cs[:2]), *cs[2:]) if c["nest"] else crv.CurveChain(*cs)
        act = [x for x in cs if x.active]
        refs = [dense(x) for x in act]
        nb = crv.convert_curve_nurbezier(ch)
        ps = nb.get_curves()
        mon.true("inactive_skipped", len(ps) == len(act), n=len(ps))
        if not c["nest"]:
            al = crv.convert_curve_nurbezier(ch, skip_inactive=False).get_curves()
            mon.true("inactive_kept", len(al) == len(cs) and [bool(q.active) for q in al] == [bool(x.active) for x in cs], n=len(al))
            for q, x in zip(al, cs):
                mon.near("inactive_kept", [q(0.0), q(1.0)], [np.asarray(x(0.0), float), np.asarray(x(1.0), float)], 1e-7 * (1 + np.abs(np.asarray(x(0.0))).max()))
            es = flat([gb.gen_splines(crv.convert_curve_nurbezier(ch, skip_inactive=False))])
            if mon.true("inactive_no_edge", len(es) == len(act), n=len(es)):
                for e, ref in zip(edge_pts(es), refs):
                    mon.near("inactive_no_edge", [e[0], e[-1]], ref[[0, -1]], 1e-6 * (1 + np.abs(ref).max()))
        for p, ref, x in zip(ps, refs, act):
            L = max(float(x.length), 1e-3)
            arc = isinstance(x, crv.ArcCurve)
            if arc and abs(x.angle) > 4.5:
                continue
            compare(mon, [dense(p, 60)], ref, 5e-2 * L if arc and abs(x.angle) > 3 else 1e-5 * L if arc or isinstance(x, crv.LineCurve) else 5e-3 * L, "nurb")
            mon.near("chain_nurb", [p(0.0), p(1.0)], ref[[0, -1]], 1e-7 * (1 + np.abs(ref).max()))
        es = flat(gb.curve_to_edges(crv.CurveChain(*act)))
        mon.true("chain_edges", len(es) == len(act), n=len(es))
        for e, ref, x in zip(edge_pts(es), refs, act):
            L = max(float(x.length), 1e-3)
            compare(mon, [e], ref, 5e-3 * L, "edge")
        v = np.array(c["v"], float)
        b = gb.np2v(v)
        mon.near("vector_roundtrip", [b.X, b.Y, b.Z], v, 0.0)
        B = gb.nppoint2Vector(np.array([v, 2 * v, -v]))
        mon.near("vector_roundtrip", [[q.X, q.Y, q.Z] for q in B], [v, 2 * v, -v], 0.0)
        q = gb.nppoint2Vector(v)
        mon.near("vector_roundtrip", [q.X, q.Y, q.Z], v, 0.0)
        return
    spec, how = c["curve"], c["how"]
    cv, *_ = cg.build(spec)
    if "trim" in how and spec["kind"] == "bezier":
        raise Skip("trimmed rational pieces keep their control points (documented limitation)")
    if how in ("trimmed", "trim_reversed", "rot_trimmed"):
        cv.set_start_and_end_on(*c["s"])
    if how in ("reversed", "trim_reversed"):
        cv.reverse()
    src = cv
    ctr, R = np.array(c["c"]), rand_rot(c["rot"])
    if how.startswith("rot"):
        cv = crv.RotatedCurve(cv, angle=c["a"], axis=R[:, 2], center=ctr)
        if how == "rot_reversed":
            cv.reverse()
        if how == "rot_mirrored":
            cv = crv.MirroredCurve(cv, plane_normal=R[:, 0], center=ctr)
    elif how == "mirrored":
        cv = crv.MirroredCurve(cv, plane_normal=R[:, 0], center=ctr)
    elif how == "scaled":
        k = c["k"]
        cv = crv.TransformedCurve(lambda p: k * p + ctr, cv)
    mon.cover("how:" + how, "kind:" + spec["kind"])
    ref = dense(cv)
    L = float(cv.length)
    if L < 1e-2:
        raise Skip("vanishing curve")
    sc = 1 + np.abs(ref).max()
    before = np.concatenate([ref.ravel(), dense(src).ravel()])
    step = np.linalg.norm(np.diff(ref, axis=0), axis=1).max()
    sag = np.linalg.norm(ref[:-2] - 2 * ref[1:-1] + ref[2:], axis=1).max() / 4
    rel = approx(cv, crv, spec)
    wrapped = how.startswith("rot") or how in ("mirrored", "scaled")
    if spec["kind"] == "arc":
        ang = abs(spec["angle"] * (c["s"][1] - c["s"][0] if "trim" in how else 1))
        mon.cover(*(["full_circle"] if abs(ang - 2 * math.pi) < 1e-9 else []), *(["negative_arc"] if spec["angle"] < 0 else []), *(["big_arc"] if ang > math.pi else []))
        if wrapped and ang > 4.5:
            raise Skip("wrapped arc beyond 260 degrees: single-piece fit")
    # CAD edges
    es = flat(gb.curve_to_edges(cv))
    # arcs and lines convert exactly; anything that goes through a fit does not
    erel = rel
    if spec["kind"] == "arc" and wrapped and ang > 3.0:
        erel = 5e-2
    pts = edge_pts(es)
    compare(mon, pts, ref, erel * L + 1e-6 * sc + 2 * sag, "edge")
    ends = np.array([pts[0][0], pts[-1][-1]])
    want = ref[[0, -1]]
    d = min(np.abs(ends - want).max(), np.abs(ends[::-1] - want).max())
    mon.near("edge_ends", d, 0.0, 1e-6 * sc)
    tl = np.linalg.norm(np.diff(ref, axis=0), axis=1).sum()
    mon.near("edge_length", sum(float(e.length) for e in es), tl, (erel * 2 + 2e-4) * tl + 4 * sag)
    if spec["kind"] == "arc" and ang > 4.5:
        return      # a single rational piece cannot follow nearly a full circle
    # rational Bezier
    nb = crv.convert_curve_nurbezier(cv)
    nrel = rel
    if spec["kind"] == "arc" and ang > 3.0:
        nrel = 5e-2
    N = dense(nb, 120)
    compare(mon, [N], ref, nrel * L + 1e-6 * sc + 2 * sag, "nurb")
    mon.near("nurb_ends", N[[0, -1]], want, 1e-6 * sc)
    if np.linalg.norm(want[0] - want[1]) > 1e-3 * L:
        mon.near("nurb_direction", N[60], ref[600], 0.12 * L)
    if isinstance(nb, crv.NurbCurve):
        mon.near("nurb_control_data", cg.bern(nb.points, nb.weights, 0.37), np.asarray(nb.function(0.37), float), 1e-9 * sc)
        mon.near("nurb_control_data", [nb.points[0], nb.points[-1]], want, 1e-6 * sc)
    if spec["kind"] == "arc" and ang < 3.1 and not wrapped:
        mon.near("exact_arc_nurb", np.linalg.norm(N - np.asarray(src.center, float), axis=1), spec["r"], 1e-9 * sc)
    if spec["kind"] == "line":
        mon.true("line_nurb", len(nb.points) == 2)
    sp = flat(gb.gen_splines(nb))
    B = np.array([cg.bern(nb.points, nb.weights, t) for t in np.linspace(0, 1, 301)])
    mon.le("spline_points", dist_to_polyline(np.concatenate(edge_pts(sp, 30)), B), 1e-6 * sc + np.linalg.norm(B[:-2] - 2 * B[1:-1] + B[2:], axis=1).max())
    mon.near("source_untouched", np.concatenate([dense(cv).ravel(), dense(src).ravel()]), before, 0.0)
