"""Lines of action: the real lines of meshed and of freely placed pairs are held against their definition (common tangents of the two base circles, pitch point,
mirror images), and against the teeth themselves: where a real flank crosses the line it crosses at a right angle and the mate's flank is there too."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen

PROP = "C32"
TECHNIQUE = "runtime monitoring: tangency monitors on the returned lines and contact monitors on the sampled real flanks of the meshed pair"
RULE = "Case = one pair in parallel planes, its placement, height ratio and roll angle. Non-trivial = both lines compared with both base circles; contact cases also located flank crossings."
COUNT = {"quick": 260, "thorough": 6000}
REQUIRED = ["on_base_circle", "tangent_1", "tangent_2", "mirror", "pitch_point", "in_section_plane", "contact_mate", "contact_normal", "within_line", "impossible_raises", "gears_untouched",
            "external", "ring_first", "ring_second", "helical", "tilted", "free_distance", "shifted", "rolled", "upper"]


def draw(r, i, tier):
    kind = ["external", "ring_first", "external", "ring_second"][i % 4]
    m, al = gen.module(r), r.choice([20, 20, 25, 17.5]) * PI / 180
    N1 = gen.teeth(r, 10, 60)
    N2 = gen.teeth(r, 10, 60) if kind == "external" else N1 + r.randint(12, 50)
    hel = round(r.uniform(-0.6, 0.6), 3) if r.random() < 0.4 else 0.0
    x1 = round(r.uniform(-0.1, 0.4), 3) if r.random() < 0.5 else 0.0
    x2 = 0.0 if kind != "external" else (round(r.uniform(-0.1, 0.4), 3) if r.random() < 0.5 else 0.0)
    return dict(kind=kind, N1=N1, N2=N2, m=m, al=al, hel=hel, x1=x1, x2=x2, h=round(m * r.choice([1, 2, 5]), 4), anchor=r.choice([0.0, 0.0, 0.5, 1.0]), pos=gen.vec(r), rot=gen.rot(r),
                ang=gen.angle(r), phi=gen.direction_in_plane(r), zr=r.choice([0.0, 1.0, 0.5, round(r.random(), 3)]), roll=round(r.uniform(-1, 1), 3), mesh=r.random() < 0.75, stretch=round(r.uniform(1.02, 1.6), 3))


def corpus(tier):
    b = dict(m=1.0, al=20 * PI / 180, hel=0.0, x1=0.0, x2=0.0, h=1.0, anchor=0.0, pos=[0, 0, 0], rot=None, ang=0.0, phi=0.0, zr=0.0, roll=0.0, mesh=True, stretch=1.1)
    out = []
    for kind, N1, N2 in (("external", 20, 31), ("ring_second", 15, 40), ("ring_first", 15, 40)):
        for k in (dict(), dict(mesh=False), dict(hel=0.4, zr=1.0, h=4.0), dict(rot=[0.3, 0.4, 0.8], pos=[3, -5, 8], phi=2.0, ang=1.0, roll=0.4), dict(m=4.0, x1=0.3, zr=0.5, h=8.0)):
            out.append(dict(b, kind=kind, N1=N1, N2=N2, **k))
    return out


def crossings(poly, a, u):
    """points where a sampled curve crosses the infinite line through a along u (2D), with the tangent there"""
    n = np.array([-u[1], u[0]])
    d = (poly - a) @ n
    k = np.where(d[:-1] * d[1:] < 0)[0]
    t = d[k] / (d[k] - d[k + 1])
    return poly[k] + t[:, None] * (poly[k + 1] - poly[k]), poly[k + 1] - poly[k]


def run(c, mon):
    import gggears as gg
    kind, m = c["kind"], c["m"]
    common = dict(module=m, pressure_angle=c["al"], height=c["h"], z_anchor=c["anchor"])
    hel = c["hel"]
    def mk(N, x, ring, hand, **k):
        kw = dict(common, number_of_teeth=N, profile_shift=x, **k)
        if hel:
            kw["helix_angle"] = hel * hand
            return (gg.HelicalRingGear if ring else gg.HelicalGear)(**kw)
        return (gg.SpurRingGear if ring else gg.SpurGear)(**kw)
    # the wheel (ring or partner) is placed, the pinion meshed to it
    ring = kind != "external"
    wheel = mk(c["N2"], c["x2"], ring, 1)
    wheel.gearcore.transform.center = np.array(c["pos"], float)
    wheel.gearcore.transform.orientation = rand_rot(c["rot"]) if c["rot"] else np.eye(3)
    wheel.gearcore.transform.angle = c["ang"]
    pinion = mk(c["N1"], c["x1"], False, 1 if ring else -1)
    pinion.mesh_to(wheel, target_dir=in_plane_dir(wheel, c["phi"]))
    R = np.asarray(wheel.gearcore.transform.orientation, float)
    n = R[:, 2]
    C1, C2 = np.asarray(pinion.center, float), np.asarray(wheel.center, float)
    if not c["mesh"]:
        dirv = unit(C1 - C2)
        d0 = float(np.linalg.norm(C1 - C2))
        pinion.center = C2 + dirv * (d0 * c["stretch"] if not ring else d0 / c["stretch"] ** 0.2)
    at = math.atan(math.tan(c["al"]) / math.cos(hel))
    mt = m / math.cos(hel)
    rb1, rb2 = c["N1"] / 2 * mt * math.cos(at), c["N2"] / 2 * mt * math.cos(at)
    zp = c["zr"] * c["h"] - c["anchor"] * c["h"]
    C1, C2 = np.asarray(pinion.center, float) + n * zp, np.asarray(wheel.center, float) + n * zp
    d = float(np.linalg.norm(C2 - C1))
    u = (C2 - C1) / d
    first_ring = kind == "ring_first"
    g1, g2 = (wheel, pinion) if first_ring or c["phi"] < 0 and kind == "external" else (pinion, wheel)
    poses = [pose(g) for g in (pinion, wheel)]
    possible = (rb1 + rb2 if not ring else abs(rb2 - rb1)) <= d
    if not possible:
        if abs((rb1 + rb2 if not ring else abs(rb2 - rb1)) - d) < 1e-6 * d:
            raise Skip("base circles just touch")
        try:
            gg.LineOfAction(g1, g2, z_ratio=c["zr"]).LOA_gen()
            mon.fail("impossible_raises", d=d, rb1=rb1, rb2=rb2)
        except ValueError:
            mon._ev("impossible_raises")
        return
    l1, l2 = gg.LineOfAction(g1, g2, z_ratio=c["zr"]).LOA_gen()
    for a, b in zip(poses, [pose(g) for g in (pinion, wheel)]):
        for x, y in zip(a, b):
            mon.near("gears_untouched", x, y, 0.0)
    mon.cover(kind, *(["helical"] if hel else []), *(["tilted"] if c["rot"] and abs(n[2]) < 0.999 else []), *(["free_distance"] if not c["mesh"] else []),
              *(["shifted"] if c["x1"] or c["x2"] else []), *(["upper"] if c["zr"] > 0 else []))
    scale = d + rb1 + rb2 + float(np.linalg.norm(c["pos"]))
    tol = 1e-9 * scale
    A = [(np.asarray(l(0), float), np.asarray(l(1), float)) for l in (l1, l2)]
    side = []
    for p, q in A:
        t = unit(q - p)
        mon.near("in_section_plane", [(p - C1) @ n, (q - C1) @ n], [0, 0], tol)
        for name, C, rb in (("tangent_1", C1, rb1), ("tangent_2", C2, rb2)):
            v = C - p
            mon.near(name, float(np.linalg.norm(v - (v @ t) * t)), rb, tol, d=d)
        if ring:      # starts on the pinion's base circle
            mon.near("on_base_circle", float(np.linalg.norm(p - C1)), rb1, tol)
            cross = C1 - u * (d * rb1 / (rb2 - rb1))
        else:         # runs from base circle to base circle
            ca, cb, ra, rb = (C1, C2, rb1, rb2) if g1 is pinion else (C2, C1, rb2, rb1)
            mon.near("on_base_circle", [np.linalg.norm(p - ca), np.linalg.norm(q - cb)], [ra, rb], tol)
            cross = C1 + u * (d * rb1 / (rb1 + rb2))
        v = cross - p
        mon.near("pitch_point", v - (v @ t) * t, np.zeros(3), tol * (1 + abs(v @ t) / (np.linalg.norm(q - p) + 1e-300)), d=d)
        side.append(float(np.cross(u, t) @ n))
    # mirror images of each other about the centre line, point by point
    for s in (0.0, 0.37, 1.0):
        a, b = np.asarray(l1(s), float) - C1, np.asarray(l2(s), float) - C1
        mon.near("mirror", b, 2 * (a @ u) * u - a, tol)
    mon.true("mirror", side[0] * side[1] < 0 or abs(d - (rb1 + rb2 if not ring else rb2 - rb1)) < 1e-3 * d, side=side)
    if not c["mesh"]:
        return
    # contact: the pair is rolled a little by the tooth ratio; both flanks of a pair without backlash touch on the lines
    th = c["roll"] * 2 * PI / c["N1"]
    pinion.angle = pinion.angle + th
    wheel.angle = wheel.angle + (1 if ring else -1) * th * c["N1"] / c["N2"]
    mon.cover("rolled")
    s1, s2 = tspec(c, c["N1"], c["x1"], False), tspec(c, c["N2"], c["x2"], ring)
    if ring and s2.sp.rb * (s2.sp.half + inv(at)) - s1.sp.rb * (s1.sp.half + inv(at)) < 1e-4 * (s2.sp.rb - s1.sp.rb):
        mon.cover("no_tight_distance")      # pinion too thick for the gap: play cannot be taken out by moving the centres
        return
    z1, z2 = float(pinion.p2z(c["zr"])), float(wheel.p2z(c["zr"]))
    P = [flanks(pinion, z1, C1, R), flanks(wheel, z2, C1, R)]
    c2 = ((C2 - C1) @ R)[:2]
    found = 0
    mon.true("contact_mate", float(np.asarray(pinion.gearcore.transform.orientation)[:, 2] @ n) > 0.999999)
    for p, q in A:
        a, b = ((p - C1) @ R)[:2], ((q - C1) @ R)[:2]
        t = unit(b - a)
        L = float(np.linalg.norm(b - a))
        foot = a - (a @ t) * t        # where the line touches the pinion's base circle
        w = ((cross - C1) @ R)[:2] - a
        if s1.tip * mt > float(np.linalg.norm(cross - C1)):
            mon.le("within_line", max(-float(w @ t), float(w @ t) - L), 1e-6 * scale, L=L)
        for k, poly in enumerate(P[0]):
            X, T = crossings(poly, a, t)
            for x, tg in zip(X, T):
                r1, r2 = float(np.linalg.norm(x)), float(np.linalg.norm(x - c2))
                lam = float((x - a) @ t)
                # between the form circles and the tips of both wheels, on the flank side generated by this line
                if not (max(s1.form * mt, rb1 * 1.0005) + 0.03 * m < r1 < s1.tip * mt - 0.03 * m):
                    continue
                if ring:
                    ok = s2.tip * mt + 0.03 * m < r2 < s2.form * mt - 0.03 * m
                else:
                    ok = max(s2.form * mt, rb2 * 1.0005) + 0.03 * m < r2 < s2.tip * mt - 0.03 * m
                if not ok:
                    continue
                if ((x - foot) @ t) * ((w - (foot - a)) @ t) <= 0:
                    continue          # beyond the tangent point
                if not ring and lam > L:
                    continue          # past the mate's tangent point: there the design itself interferes
                nrm = abs(float(unit(tg) @ t))
                if (foot[1] * x[0] - foot[0] * x[1] > 0) != (k % 2 == 0):
                    continue          # the flank that faces the other way belongs to the other line
                # crossing on the far side of the wheel (line extended) is not contact
                if (x @ (((C2 - C1) @ R)[:2])) * (-1 if ring else 1) <= 0:
                    continue
                found += 1
                mon.le("contact_normal", nrm, 1.5e-2, r1=r1)
                dm = min(float(dist_to_polyline(x[None], w)[0]) for w in P[1])
                mon.le("contact_mate", dm, 2e-3 * m, r1=r1, r2=r2, lam=lam)
                mon.le("within_line", max(-lam, lam - L), 1e-6 * scale, lam=lam, L=L)
    mon.cover(f"contacts{min(found, 4)}")


class tspec:
    """radii between which a flank is plain involute, module-1 transverse units"""

    def __init__(self, c, N, x, ring):
        hel = c["hel"]
        cs = math.cos(hel)
        at = math.atan(math.tan(c["al"]) / cs)
        ha, hd = (1.2, 1.0) if ring else (1.0, 1.2)
        sp = InvoluteSpec(N, at, x * cs, ha * cs, hd * cs, 0.0, inside=ring) if ring else InvoluteSpec(N, at, x * cs, ha * cs, hd * cs, 0.0)
        self.sp = sp
        if ring:
            self.tip = max(sp.ra, sp.rb) if sp.ra < sp.rf else max(sp.rf, sp.rb)
            self.tip += 0.2        # tip truncation of a ring
            self.form = max(sp.ra, sp.rf) - 0.25
        else:
            self.tip = min(sp.ra, sp.tip_point_radius() - 0.12)
            f = sp.form_radius()
            self.form = max(f if f is not None else undercut_radius(sp), sp.rb)


def flanks(g, z, C, R):
    out = []
    N = int(g.number_of_teeth)
    pr, parts = tooth_parts(g, z, 160)
    for k in range(N):
        for q in ("tooth_curve", "tooth_curve_mirror"):
            w = applyT(applyT(parts[q] @ rotz(2 * PI * k / N).T, pr.transform), g.gearcore.transform)
            out.append(((w - C) @ R)[:, :2])
    return out
