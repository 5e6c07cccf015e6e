"""Side surfaces: the real surface generator is run for gears of every family (twisted, crowned, conical) at several sampling densities; the surfaces are evaluated
from their control data with an own rational tensor-product formula, and every point is measured against the exact section at its own height."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen

PROP = "C31"
TECHNIQUE = "runtime monitoring: generated surface patches evaluated by an independent tensor-product formula and measured against exact sections at the points' own height"
RULE = "Case = one gear and one sampling density. Non-trivial = every patch of the tooth was evaluated at 5 heights and compared with the exact section there."
COUNT = {"quick": 40, "thorough": 900}
CASE_TIMEOUT = 200
REQUIRED = ["end_sections", "mid_sections", "shared_edges", "stacked_edges", "pitch_closes", "level_rows", "density_no_worse", "weights_positive", "sections_exact", "vert2", "vert3", "vert4", "vert6", "crowned", "twisted", "gear_untouched"] + gen.FAMILIES


def draw(r, i, tier):
    fam = gen.FAMILIES[i % len(gen.FAMILIES)]
    s = gen.family_spec(r, fam)
    s["kw"]["number_of_teeth"] = min(s["kw"]["number_of_teeth"], 60)
    tw = r.random() < 0.5
    if s["kw"].get("helix_angle") and tw and "bevel" not in fam:
        s["kw"]["height"] = round(s["kw"]["module"] * r.uniform(2, 20), 3)
    return dict(spec=s, vert=r.choice([2, 3, 4, 4, 6]), hz=r.choice([4, 4, 4, 5]), over=r.choice([3, 3, 2, 4]), pair=r.random() < 0.25)


def corpus(tier):
    f = lambda fam, cls, vert, **k: dict(spec=dict(cls=cls, kw=k, fam=fam), vert=vert, hz=4, over=3, pair=vert == 3)
    return [f("spur", "SpurGear", 2, number_of_teeth=17), f("spur", "SpurGear", 3, number_of_teeth=17, crowning=120.0, height=6.0, z_anchor=0.5),
            f("helical", "HelicalGear", 6, number_of_teeth=14, helix_angle=0.7, height=14.0), f("herring", "HelicalGear", 4, number_of_teeth=21, helix_angle=-0.5, herringbone=True, height=8.0),
            f("helical_ring", "HelicalRingGear", 4, number_of_teeth=40, helix_angle=0.4, height=8.0), f("bevel", "BevelGear", 4, number_of_teeth=20, cone_angle=1.2, height=3.0, helix_angle=0.4),
            f("cycloid", "CycloidGear", 4, number_of_teeth=12, height=5.0, helix_angle=0.5, crowning=60.0)]


def bern(n, t):
    return np.array([math.comb(n - 1, k) * t ** k * (1 - t) ** (n - 1 - k) for k in range(n)])


def ev(P, W, v, u):
    b = np.outer(bern(P.shape[0], v), bern(P.shape[1], u)) * W
    return np.einsum("ij,ijk->k", b, P) / b.sum()


US = (0.0, 0.13, 0.31, 0.5, 0.72, 0.9, 1.0)


def bound(n, th, R):
    """largest deviation of the best polynomial of n points from a circular arc turning by th at constant axial speed (measured envelope, factor ~2 in hand)"""
    if th < 1e-9:
        return 0.0
    return R * {2: th * th / 6, 3: th ** 4 / 20, 4: 1.2e-5 * th ** 6, 6: 1e-6 * th ** 6}[n]


def measure(g, gn, mon, n, tagged=True):
    N = int(g.number_of_teeth)
    gam = float(g.gearcore.cone.cone_angle) / 2
    ap = np.array([0, 0, (N / 2) / math.tan(gam)]) if gam else None
    Rs = (N / 2) / math.sin(gam) if gam else None
    zv = np.asarray(g.gearcore.z_vals, float)
    worst = 0.0
    last = None
    crown = abs(float(getattr(g.inputparam, "crowning", 0) or 0)) * 1e-3
    # a crowned tooth that is nearly pointed at its ends changes its tip height along the face: rows between follow that only roughly
    lands = [len(parts["ra_curve"]) and float(np.linalg.norm(np.diff(parts["ra_curve"], axis=0), axis=1).sum()) for parts in (tooth_parts(g, float(z), 40)[1] for z in zv)]
    slack = 0.3 if crown and min(lands) < 3 * crown + 0.05 else 0.1
    for k, sd in enumerate(gn.side_surf_data):
        pats = [*sd.get_patches()][:-3]
        th = abs(float(g.gearcore.shape_recipe(zv[k + 1]).transform.angle - g.gearcore.shape_recipe(zv[k]).transform.angle))
        R = N / 2 + 2.6
        if tagged:
            mon.le("weights_positive", -np.concatenate([p["weights"].ravel() for p in pats]), -1e-6)
            for a, b in zip(pats[:-1], pats[1:]):
                mon.near("shared_edges", a["points"][:, -1], b["points"][:, 0], 0.0)
                mon.near("shared_edges", a["weights"][:, -1], b["weights"][:, 0], 0.0)
            first, end = pats[0]["points"][:, 0], pats[-1]["points"][:, -1]
            d = min(np.abs(first @ rotz(s * 2 * PI / N).T - end).max() for s in (1, -1))
            mon.near("pitch_closes", d, 0.0, 2e-4 + 1e-3 * crown, k=k)
            if last is not None:
                a, b = last, np.concatenate([p["points"][0] for p in pats])
                if a.shape == b.shape:
                    mon.near("stacked_edges", a, b, 1e-5, k=k)
            last = np.concatenate([p["points"][-1] for p in pats])
        for v in (0.0, 0.23, 0.5, 0.81, 1.0):
            pts = np.array([ev(p["points"], p["weights"], v, u) for p in pats for u in US])
            z = pts[:, 2] if not gam else (1 - np.linalg.norm(pts - ap, axis=1) / Rs) * (N / 2) / math.sin(gam)
            zz = float(np.median(z))
            if tagged:
                # rows of the surface stay level, i.e. belong to one section
                mon.le("level_rows", float(z.max() - z.min()), 4e-3 + 0.02 * bound(n, th, R) + (0.02 * th if n < 4 else 0), v=v)
                if v in (0.0, 1.0):
                    mon.near("end_sections", zz, zv[k + int(v)], 2e-3, v=v)
            pr, parts = tooth_parts(g, zz, 300)
            A = np.vstack([parts[q] for q in ("rd_curve", "tooth_curve", "ra_curve", "tooth_curve_mirror") if len(parts[q])])
            W = applyT(np.vstack([A @ rotz(q * 2 * PI / N).T for q in (-1, 0, 1)]), pr.transform)
            d = dist_to_polyline(pts, W)
            if v in (0.0, 1.0):
                if tagged:
                    mon.le("end_sections", d, 2.5e-3, v=v, k=k)
            else:
                worst = max(worst, float(d.max()))
                if tagged:
                    mon.le("mid_sections", d, 2.5e-3 + bound(n, th, R) + slack * crown, v=v, k=k, th=th)
    return worst


def run(c, mon):
    import gggears.gggears_convert as cv
    s = c["spec"]
    g = make(dict(cls=s["cls"], kw=s["kw"]))
    N = int(g.number_of_teeth)
    zv = np.asarray(g.gearcore.z_vals, float)
    tw = max(abs(float(g.gearcore.shape_recipe(b).transform.angle - g.gearcore.shape_recipe(a).transform.angle)) for a, b in zip(zv[:-1], zv[1:]))
    vert = c["vert"]
    if tw > 2.2 or (tw > 0.9 and vert == 3) or (tw > 0.15 and vert == 2):
        vert = 6 if tw > 1.2 else 4
        if tw > 3.0:
            raise Skip("more twist than one strip is meant for")
    crown = float(s["kw"].get("crowning", 0) or 0)
    if vert == 2 and (crown or tw > 1e-9):
        vert = 3        # two rows cannot carry a crown or a twist
    mon.cover(s["fam"], f"vert{vert}", *(["crowned"] if crown else []), *(["twisted"] if tw > 0.05 else []))
    before = [np.asarray(g.gearcore.curve_gen_at_z(float(z)).tooth_curve(0.3), float) for z in zv[[0, -1]]]
    gn = cv.GearToNurbs(g.gearcore, c["hz"], vert, c["over"])
    mon.true("sections_exact", len(gn.side_surf_data) == len(zv) - 1, n=len(gn.side_surf_data))
    w = measure(g, gn, mon, vert)
    mon.near("gear_untouched", [np.asarray(g.gearcore.curve_gen_at_z(float(z)).tooth_curve(0.3), float) for z in zv[[0, -1]]], before, 0.0)
    if c["pair"]:
        more = cv.GearToNurbs(g.gearcore, c["hz"], {2: 3, 3: 4, 4: 6, 6: 6}[vert], c["over"])
        w2 = measure(g, more, mon, vert, tagged=False)
        mon.le("density_no_worse", w2, w + 1e-3)
