"""Axial bookkeeping of real gears (reported points, faces, heights, reference circles, boundary curves, solids) against the plain
rule bottom = -anchor*height, top = (1-anchor)*height along the axis (bevel: along the pitch cone)."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen
from . import c15

PROP = "C18"
TECHNIQUE = "runtime monitoring: reported and built axial extents compared with an independent height/anchor model"
RULE = "Case = one gear with pose, height, anchor. Non-trivial = reported points, circles and boundary heights were all compared with the model (solids for a part of the cases)."
COUNT = {"quick": 143, "thorough": 6000}
CASE_TIMEOUT = 150
REQUIRED = ["bottom_top", "middle", "reported_height", "boundary_height", "proportion", "pitch_circle", "reference_section", "face_position", "solid_extent", "cone_width", "face_on_plane", "anchored", "outside_anchor", "moved"] + gen.FAMILIES


def draw(r, i, tier):
    fam = gen.FAMILIES[i % len(gen.FAMILIES)]
    s = gen.family_spec(r, fam, height=round(10 ** r.uniform(-0.7, 1.1), 3), big=True)
    bev = "bevel" in fam
    s["kw"]["z_anchor"] = r.choice([0, 0.5, 1.0, 0.3] if bev else [0, 0.5, 1.0, 0.25, -0.4, 1.7, round(r.uniform(-1, 2), 3)])
    solid = (i // 13) % 8 == 0
    if solid:
        s["kw"]["number_of_teeth"] = min(s["kw"]["number_of_teeth"], 16 if "ring" not in fam else 36)
        if bev:
            s["kw"]["height"] = min(s["kw"]["height"], s["kw"]["module"] * 2)
    return dict(spec=s, place=gen.placement(r), solid=solid, f=round(r.random(), 3), g=round(r.uniform(-0.3, 1.3), 3))


def corpus(tier):
    out = []
    for a in (0, 0.5, 1.0, -1.0, 0.2):
        for cls, fam, k in (("SpurGear", "spur", {}), ("HelicalGear", "herring", dict(helix_angle=0.5, herringbone=True)), ("SpurRingGear", "ring", {}), ("CycloidGear", "cycloid", {}), ("BevelGear", "bevel", dict(cone_angle=PI / 2)),
                            ("HelicalRingGear", "helical_ring", dict(helix_angle=0.2))):
            out.append(dict(spec=dict(cls=cls, fam=fam, kw=dict(number_of_teeth=21, module=2.0, height=7.0, z_anchor=max(a, 0) if fam == "bevel" else a, **k)), place=dict(pos=[1.0, 2.0, 3.0], rot=[.2, .4, .9], angle=0.3), solid=False, f=0.4, g=0.7))
    return out


def run(c, mon):
    s = c["spec"]
    kw, fam = s["kw"], s["fam"]
    g = make(dict(cls=s["cls"], kw=kw, **c["place"]))
    gam = kw.get("cone_angle", 0) / 2
    m, h, a, N = kw["module"], kw["height"], kw.get("z_anchor", 0), kw["number_of_teeth"]
    mt = m / math.cos(kw.get("helix_angle", 0)) if "Helical" in s["cls"] else m
    cen, R, ang, sc = pose(g)
    ax = R[:, 2]
    mon.cover(fam, *(["anchored"] if a else []), *(["outside_anchor"] if a < 0 or a > 1 else []), *(["moved"] if c["place"].get("rot") else []))
    cg, sg = math.cos(gam), math.sin(gam)
    S = 1e-9 * (50 + h + m * N)
    wb, wt = -a * h, (1 - a) * h        # along the pitch cone
    at = lambda w: cen + ax * (w * cg)
    mon.near("bottom_top", [g.center_point_bottom, g.center_point_top], [at(wb), at(wt)], S, fam=fam)
    mon.near("middle", g.center_point_middle, at((wb + wt) / 2), S, fam=fam)
    mon.near("reported_height", float(g.z_height), h * cg, S, fam=fam)
    for p in (0.0, 1.0, 0.5, c["f"], c["g"]):
        w = wb + p * (wt - wb)
        z = g.p2z(p)
        mon.near("proportion", float(z) * mt, w, S, p=p, fam=fam)
        mon.near("proportion", float(g.proportion_to_z(p)) * mt, w, S, p=p, fam=fam)
        mon.near("proportion", g.center_point_at_z(z), at(w), S, p=p, fam=fam)
        q, A = c15.loc_mat(g.center_location_at_z(z))
        mon.near("location_at_height", q, at(w), S * 10, p=p, fam=fam)
    for name, w in (("bottom", wb), ("middle", (wb + wt) / 2), ("top", wt)):
        q, A = c15.loc_mat(getattr(g, "center_location_" + name))
        mon.near("location_at_height", q, at(w), S * 10, which=name, fam=fam)
        mon.near("location_axis", A[:, 2], ax, 1e-7, which=name, fam=fam)
    # reference circles
    rb_ = {}
    for name, w, rd in (("bottom", wb, g.radii_data_bottom), ("top", wt, g.radii_data_top), ("f", wb + c["f"] * h, g.radii_data_gen(g.p2z(c["f"]))), ("zero", 0.0, g.radii_data_gen(0.0))):
        rp = mt * N / 2 - w * sg
        mon.near("pitch_circle", float(rd.r_p_curve.radius), rp, S * 10, which=name, fam=fam)
        mon.near("pitch_circle", rd.r_p_curve.center, at(w), S * 10, which=name, fam=fam)
        if name == "zero":
            mon.near("reference_section", float(rd.r_p_curve.radius), mt * N / 2, S * 10, fam=fam)
            mon.near("reference_section", rd.r_p_curve.center, cen, S * 10, fam=fam)
            mon.near("reference_section", float(g.pitch_radius), mt * N / 2, S, fam=fam)
        rb_[name] = rd
    if gam:
        d = math.hypot(float(rb_["top"].r_p_curve.radius) - float(rb_["bottom"].r_p_curve.radius), float((np.asarray(rb_["top"].r_p_curve.center) - np.asarray(rb_["bottom"].r_p_curve.center)) @ ax))
        mon.near("cone_width", d, h, S * 20, fam=fam)
    # boundary curves
    for p in (0.0, c["f"], 1.0):
        w = wb + p * (wt - wb)
        B = np.asarray(g.gearcore.boundary_at_z(g.p2z(p), continuous=False)(np.linspace(0, 1, 40)), float)
        hgt = (B - cen) @ ax
        if gam == 0:
            mon.near("boundary_height", hgt, np.full(len(B), w), S * 100, p=p, fam=fam)
        elif kw.get("enable_undercut", True) or s["cls"] == "CycloidGear" or gam - math.asin(math.sin(gam) * math.cos(kw.get("pressure_angle", math.radians(20)))) > 1.35 * math.sin(gam) / (N / 2):
            # (without undercut the octoid flank has a cusp on the base cone; roots below it are outside the domain)
            # on the sphere through the pitch circle at that height
            Rs = (mt * N / 2 - w * sg) / sg
            apex = cen + ax * (mt * N / 2 / math.tan(gam))
            mon.near("boundary_height", np.linalg.norm(B - apex, axis=1), np.full(len(B), Rs), 1e-7 * Rs * 50, p=p, fam=fam)
    fb, ft = c15.loc_mat(g.face_location_bottom), c15.loc_mat(g.face_location_top)
    if gam == 0:
        mon.near("face_position", [fb[0], ft[0]], [at(wb), at(wt)], S * 10, fam=fam)
    else:
        for (q, A), w, nm in ((fb, wb, "bottom"), (ft, wt, "top")):
            v = q - cen
            mon.near("face_position", v - ax * (v @ ax), np.zeros(3), S * 10, fam=fam)
            ctr = np.asarray(rb_[nm].r_o_curve.center, float)
            mon.near("face_position", q, ctr, S * 10, fam=fam)
    mon.near("face_axis", [fb[1][:, 2], ft[1][:, 2]], [ax, ax], 1e-7, fam=fam)
    if c["solid"]:
        part = g.build_part()
        V = (c15.verts(part) - cen) @ ax
        if gam == 0:
            mon.near("solid_extent", [V.min(), V.max()], [wb, wt], 1e-6 * (h + m * N), fam=fam)
        ctrs = []
        for f_ in part.faces():
            if str(f_.geom_type).endswith("PLANE"):
                n = c15.vv(f_.normal_at())
                if abs(abs(n @ ax) - 1) < 1e-6:
                    ctrs.append((c15.vv(f_.center()) - cen) @ ax)
        mon.true("planar_faces", len(ctrs) >= 2, n=len(ctrs), fam=fam)
        if len(ctrs) >= 2:
            mon.near("face_on_plane", [min(ctrs), max(ctrs)], sorted([(fb[0] - cen) @ ax, (ft[0] - cen) @ ax]), 1e-5 * (h + m * N), fam=fam)
