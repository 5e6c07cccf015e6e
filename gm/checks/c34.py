"""Twist of helical, herringbone and spiral gears: sections of the real gear at many heights, taken in world space, are untwisted by height x tan(helix) / pitch radius computed from
the constructor arguments and must land on the bottom section; the side faces of the built solid are sampled and untwisted the same way."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen

PROP = "C34"
TECHNIQUE = "runtime monitoring: world-space sections and sampled faces of built solids untwisted by the lead law and compared with the reference section"
RULE = "Case = one gear with a helix, its placement and 5 heights (some also built as a solid). Non-trivial = every section was untwisted and compared with the section at the anchor plane."
COUNT = {"quick": 160, "thorough": 7000}
CASE_TIMEOUT = 250
REQUIRED = ["untwisted", "right_hand", "anchor_untwisted", "reported_angle", "height_span", "mirror_halves", "ends_coincide", "shape_constant", "solid_twist", "solid_full_turn", "left", "right", "steep",
            "helical", "helical_ring", "herring", "herring_ring", "generic", "generic_ring", "cycloid", "spiral_bevel", "anchored", "module", "opposite_hands"]
FAMS = ["helical", "helical_ring", "herring", "herring_ring", "generic", "generic_ring", "cycloid", "spiral_bevel"]


def draw(r, i, tier):
    fam = FAMS[i % 8]
    s = gen.family_spec(r, fam, fancy=r.random() < 0.5)
    kw = s["kw"]
    kw.pop("crowning", None)
    solid = (i % 40 in (0, 9, 18, 27)) and fam != "spiral_bevel"
    b = r.choice([-1, 1]) * r.uniform(0.05, 0.5 if fam in ("cycloid", "generic", "generic_ring") else (1.0 if r.random() < 0.2 else 0.7))
    if solid:
        b = max(-0.6, min(0.6, b))
        kw["number_of_teeth"] = min(kw["number_of_teeth"], 40 if "ring" in fam else 14)
    kw["helix_angle"] = round(b, 3)
    if fam != "spiral_bevel":
        kw["height"] = round(kw["module"] * (r.uniform(0.5, 4) if solid or r.random() < 0.6 else r.uniform(5, 80)), 3)
    return dict(spec=s, place=gen.placement(r), f=sorted(round(r.random(), 3) for _ in range(4)), solid=bool(solid))


def corpus(tier):
    f = lambda fam, cls, solid, **k: dict(spec=dict(cls=cls, kw=k, fam=fam), place=dict(pos=[1, 2, 3], rot=[.2, .9, .3], angle=0.7), f=[0.1, 0.37, 0.5, 0.77], solid=solid)
    out = [f("helical", "HelicalGear", True, number_of_teeth=6, helix_angle=0.6, height=36.0, module=1.0), f("helical", "HelicalGear", False, number_of_teeth=9, helix_angle=-1.0, height=300.0, module=2.0, z_anchor=0.5),
           f("herring", "HelicalGear", True, number_of_teeth=8, helix_angle=0.5, height=9.0, herringbone=True), f("herring_ring", "HelicalRingGear", True, number_of_teeth=30, helix_angle=0.4, height=5.0, herringbone=True)]
    if tier == "thorough":
        out += [f("herring", "HelicalGear", True, number_of_teeth=6, helix_angle=0.6, height=70.0, module=1.0, herringbone=True), f("helical", "HelicalGear", True, number_of_teeth=7, helix_angle=-0.7, height=90.0, module=1.0, z_anchor=0.5)]
    return out


def run(c, mon):
    s = c["spec"]
    kw, fam = s["kw"], s["fam"]
    N, b, m, h = kw["number_of_teeth"], kw["helix_angle"], kw.get("module", 1.0), kw["height"]
    an = kw.get("z_anchor", 0.0)
    hel = "Helical" in s["cls"]
    mt = m / math.cos(b) if hel else m
    rp = N / 2 * mt
    gam = kw.get("cone_angle", 0.0) / 2
    herring = bool(kw.get("herringbone"))
    g = make(dict(cls=s["cls"], kw=kw, **c["place"]))
    cen, O, ang, sc = pose(g)
    rate = math.tan(b) / rp            # rad per length
    mon.cover(fam, "right" if b > 0 else "left", *(["steep"] if abs(b) > 0.75 else []), *(["anchored"] if an else []), *(["module"] if m != 1 else []))

    def law(y):
        """turn of the section y above the bottom, relative to the anchor plane (herringbone: own zero, taken relative to the bottom)"""
        return rate * (min(y, h - y) if herring else y - an * h)

    def section(f):
        pr, parts = tooth_parts(g, float(g.p2z(f)), 60)
        P = np.vstack([parts[q] for q in ("rd_curve", "tooth_curve", "ra_curve", "tooth_curve_mirror") if len(parts[q])])
        W = (applyT(applyT(P, pr.transform), g.gearcore.transform) - cen) @ O
        return W, P, pr
    W0, P0, pr0 = section(0.0)
    apex = np.array([0, 0, rp / math.tan(gam)]) if gam else None
    rough = 1e-4 * m * max(1, N / 20) if gam else 1e-7 * (rp + h)
    first = None
    for f in [0.0] + c["f"] + [1.0]:
        W, P, pr = section(f)
        y = f * h
        if gam:
            k = 1 - (y - an * h) * math.sin(gam) / rp
            k0 = 1 + an * h * math.sin(gam) / rp
            mon.near("height_span", float(np.median(np.linalg.norm(W - apex, axis=1))), rp / math.sin(gam) * k, 3e-3 * m)
            A, B = (W - apex) / k, (W0 - apex) / k0
        else:
            mon.near("height_span", W[:, 2], np.full(len(W), y - an * h), 1e-9 * (h + rp))
            A, B = W.copy(), W0.copy()
            A[:, 2] = B[:, 2] = 0
        if A.shape != B.shape:
            continue
        turn = law(y) - law(0.0)
        mon.near("untwisted", A @ rotz(-turn).T, B, rough, f=f, turn=turn)
        mon.near("shape_constant", P, P0, (1e-9 if not gam else 1e-4) * N)
        mon.near("reported_angle", float(pr.transform.angle - pr0.transform.angle), turn, 1e-9 * (1 + abs(turn)))
    if not herring and 0 <= an <= 1:
        # the section in the anchor plane points along the gear's own angle: its tooth is centred on that direction
        W, P, pr = section(an)
        mon.near("anchor_untwisted", float(pr.transform.angle), 0.0, 1e-9)
        t = W.reshape(-1, 3)
        u = np.array([math.cos(ang), math.sin(ang), 0])
        tip = applyT(applyT(tooth_parts(g, float(g.p2z(an)), 30)[1]["tooth_curve"][-1:], pr.transform), g.gearcore.transform)
        tip2 = applyT(applyT(tooth_parts(g, float(g.p2z(an)), 30)[1]["tooth_curve_mirror"][:1], pr.transform), g.gearcore.transform)
        mid = ((tip + tip2)[0] / 2 - cen) @ O
        mid[2] = 0
        mon.near("anchor_untwisted", unit(mid), u, 1e-6)
    # hand: going up by dy turns the section counter-clockwise about the axis for a positive helix
    dy = 0.02
    a0, a1 = float(g.gearcore.shape_recipe(float(g.p2z(0.2))).transform.angle), float(g.gearcore.shape_recipe(float(g.p2z(0.2 + dy))).transform.angle)
    mon.true("right_hand", (a1 - a0) * b > 0, a0=a0, a1=a1)
    if herring:
        Wt, _, _ = section(1.0)
        mon.near("ends_coincide", Wt[:, :2], W0[:, :2], 1e-7 * rp)
        for f in c["f"]:
            A, B = section(f)[0], section(1 - f)[0]
            mon.near("mirror_halves", A[:, :2], B[:, :2], 1e-7 * rp, f=f)
            mon.near("mirror_halves", A[:, 2] + B[:, 2], np.full(len(A), h - 2 * an * h), 1e-7 * (rp + h))
    else:
        # a gear of the other hand is the mirror image
        k2 = dict(kw, helix_angle=-b)
        g2 = make(dict(cls=s["cls"], kw=k2))
        f = c["f"][0]
        pr2, parts2 = tooth_parts(g2, float(g2.p2z(f)), 30)
        pr1 = g.gearcore.curve_gen_at_z(float(g.p2z(f)))
        mon.near("opposite_hands", float(pr2.transform.angle), -float(pr1.transform.angle), 1e-9 * (1 + abs(rate * h)))
    if c["solid"] and not gam:
        part = g.build_part()
        base = np.vstack([P0 @ rotz(2 * PI * k / N).T for k in (-1, 0, 1)])
        base = applyT(base, pr0.transform) * mt
        base[:, 2] = 0
        base = base @ rotz(ang).T
        far = np.array([law(0.0)])
        n = 0
        faces = part.faces()
        step = max(1, len(faces) // 60)
        q = []
        for fc in faces[::step]:
            if str(fc.geom_type).endswith("PLANE"):
                continue
            for u, v in ((.31, .42), (.5, .5), (.7, .83), (.2, .93), (.85, .11)):
                p = fc.position_at(u, v)
                q.append((p.X, p.Y, p.Z))
        if not q:
            raise Skip("no curved faces")
        L = (np.array(q) - cen) @ O
        y = L[:, 2] + an * h
        keep = (y > 1e-6) & (y < h - 1e-6)
        turns = np.array([law(float(v)) - law(0.0) for v in y])
        U = np.stack([L[:, 0] * np.cos(-turns) - L[:, 1] * np.sin(-turns), L[:, 0] * np.sin(-turns) + L[:, 1] * np.cos(-turns), 0 * y], 1)
        # bring every point to the neighbourhood of the reference tooth
        tc = ang + float(pr0.transform.angle)
        az = np.arctan2(U[:, 1], U[:, 0]) - tc
        U = np.array([p @ rotz(-round(float(a) / (2 * PI / N)) * 2 * PI / N).T for p, a in zip(U, az)])
        r = np.linalg.norm(U, axis=1)
        # bore/rim surfaces are not teeth
        rr = np.linalg.norm(base, axis=1)
        keep &= (r > rr.min() - 0.05 * m) & (r < rr.max() + 0.05 * m)
        mon.le("solid_twist", dist_to_polyline(U[keep], base), 6e-3 * m, turn=float(rate * h))
        if abs(rate * h) > 2 * PI:
            mon._ev("solid_full_turn")
