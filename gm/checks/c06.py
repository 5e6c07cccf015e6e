"""Helical pairs. Parallel shafts: the rolled-contact monitor runs in several transverse sections. Crossed shafts: the
surface points of one real gear are mapped into the untwisted section of the other (exact solid membership), so
penetration and contact are observed in space; the trace directions at the pitch point must be parallel."""
import math
import numpy as np
import shapely
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen
from . import c01

PROP = "C06"
TECHNIQUE = "runtime monitoring: multi-section rolled-contact monitor and 3D penetration monitor for crossed shafts"
RULE = ("Case = two helical gears (equal and opposite, or different helix angles), pose, direction. Non-trivial = shaft inclination observed and "
        "at least one rolled phase of a section (parallel) or of the space surfaces (crossed) evaluated.")
COUNT = {"quick": 330, "thorough": 4500}
REQUIRED = ["parallel_axes", "no_interference", "contact_both_flanks", "crossed", "herringbone", "traces_parallel", "no_penetration", "contact_in_space", "pitch_radius",
            "unequal_angles", "spur_partner", "distance_crossed", "crossed_backlash"]


def draw(r, i, tier):
    crossed = i % 3 == 0
    b1 = round(r.choice([-1, 1]) * r.uniform(0.05, 0.8), 3)
    if crossed:
        k = r.random()
        b1 = r.choice([-1, 1]) * (PI / 4 if k < 0.2 else round(r.uniform(0.15, 0.8), 3))
        b2 = b1 if k < 0.4 else (0.0 if k < 0.5 else round(r.uniform(-0.8, 0.8), 3))
        if abs(b1 + b2) < 0.25:
            b2 = b1
        N1, N2 = r.randint(14, 40), r.randint(14, 60)
        x1, x2 = (0, 0) if r.random() < 0.6 else (round(r.uniform(-.1, .3), 3), round(r.uniform(-.1, .3), 3))
    else:
        b2 = -b1
        N1, N2 = gen.teeth(r, 8, 120), gen.teeth(r, 8, 120)
        k = r.random()
        x1 = x2 = 0.0
        if k < 0.3:
            x1, x2 = round(r.uniform(-.2, .4), 3), round(r.uniform(-.2, .5), 3)
        elif k < 0.5:
            x1 = round(r.uniform(-.3, .5), 3)
            x2 = -x1
    return dict(crossed=crossed, N1=N1, N2=N2, b1=b1, b2=b2, m=gen.module(r), an=gen.pa(r) if not crossed else r.choice([20, 25, 17.5]) * PI / 180, x1=x1, x2=x2,
                ha=r.choice([1.0, 1.0, 0.9]), hd=r.choice([1.2, 1.25]), herr=(not crossed) and r.random() < 0.3, height=r.choice([1.0, 3.0, 8.0]), anchor=r.choice([0, 0.5, 1.0]),
                pos=gen.vec(r), rot=gen.rot(r), ang=gen.angle(r), phi=gen.direction_in_plane(r), ph=round(r.random(), 3), gl=r.choice([0, 0, 0.02]))


def corpus(tier):
    import random
    out = []
    for s in range(10):
        c = draw(random.Random(f"c06{s}"), s, tier)
        if s == 0:
            c.update(b1=PI / 4, b2=PI / 4, x1=0, x2=0, pos=[0, 0, 0], rot=None, ang=0, phi=0)
        if s == 3:
            c.update(b1=0.3, b2=0.5, x1=0, x2=0, gl=0)
        if s == 6:
            c.update(b1=0.6, b2=0.0, x1=0.2, x2=0, gl=0)
        if s == 9:
            c.update(b1=0.1, b2=-0.6, x1=0, x2=0, gl=0, N1=15, N2=40)
        if s == 1:
            c.update(b1=0.4, b2=-0.4, herr=False, height=8.0, x1=0.3, x2=0.2, N1=18, N2=31)
        if s == 2:
            c.update(b1=-0.5, b2=0.5, herr=True, height=8.0, x1=0, x2=0, N1=18, N2=31)
        out.append(c)
    return out


def tspec(N, an, b, x, ha, hd, bl):
    cb = math.cos(b)
    return InvoluteSpec(N, math.atan(math.tan(an) / cb), x * cb, ha * cb, hd * cb, bl)


def surf(g, z0, z1, nz, n, teeth):
    """surface points of some teeth: (world points)"""
    out = []
    for z in np.linspace(z0, z1, nz):
        out.append(slice_world(g, z, n, teeth))
    return np.vstack(out)


def near_tooth(g, zc, P):
    """index of the tooth whose pitch block is nearest to the world point P in section zc"""
    pr, pts = slice_ref(g, zc, 6)
    N = int(g.number_of_teeth)
    d = [np.linalg.norm(applyT(applyT(pts @ rotz(2 * PI * k / N).T, pr.transform), g.gearcore.transform).mean(axis=0) - P) for k in range(N)]
    return int(np.argmin(d))


class Untwist:
    """membership of world points in a helical gear, by mapping them to its z=0 section"""

    def __init__(self, g, beta, n=250):
        self.g, self.N = g, int(g.number_of_teeth)
        pr, pts = slice_ref(g, 0.0, n)
        self.rp = self.N / 2
        pts = pts @ rotz(float(pr.transform.angle)).T
        self.poly = Polygon(dedup(np.vstack([pts[:, :2] @ rotz(2 * PI * k / self.N)[:2, :2].T for k in range(self.N)]), 1e-9))
        self.poly = clean(self.poly)
        shapely.prepare(self.poly)
        self.line = self.poly.exterior
        self.k = math.tan(beta) / self.rp

    def depth(self, P, turn=0.0):
        """penetration depth in modules of world points when the gear is turned further by `turn` about its own axis"""
        c, R, a, s = pose(self.g)
        q = to_frame(P, c, R) / s
        ang = -(a + turn + q[:, 2] * self.k)
        x = q[:, 0] * np.cos(ang) - q[:, 1] * np.sin(ang)
        y = q[:, 0] * np.sin(ang) + q[:, 1] * np.cos(ang)
        pts = shapely.points(x, y)
        ins = shapely.contains(self.poly, pts)
        if not ins.any():
            return 0.0
        q = pts[ins]
        return float(shapely.distance(q[:: max(1, len(q) // 40)], self.line).max())


def run(c, mon):
    s1 = tspec(c["N1"], c["an"], c["b1"], c["x1"], c["ha"], c["hd"], c["gl"])
    s2 = tspec(c["N2"], c["an"], c["b2"], c["x2"], c["ha"], c["hd"], c["gl"])
    m = c["m"]
    kw = dict(module=m, pressure_angle=c["an"], addendum_coefficient=c["ha"], dedendum_coefficient=c["hd"], height=c["height"] * m, z_anchor=c["anchor"], backlash=c["gl"])
    if c["crossed"]:
        kw.update(height=6 * m, z_anchor=0.5)
    k1 = dict(kw, number_of_teeth=c["N1"], helix_angle=c["b1"], profile_shift=c["x1"], herringbone=c["herr"])
    k2 = dict(kw, number_of_teeth=c["N2"], helix_angle=c["b2"], profile_shift=c["x2"], herringbone=c["herr"])
    mt1, mt2 = m / math.cos(c["b1"]), m / math.cos(c["b2"])
    if not c["crossed"]:
        dom = dict(c, alpha=s1.alpha, uc=True, rf=0.0, bl1=c["gl"], bl2=c["gl"])
        d, aw = external_distance(s1, s2)
        eps = c01.domain(dom, s1, s2, d, aw)
    else:
        if c["x1"] + c["x2"] < -0.05 or min(s1.tip_point_radius() - s1.ra, s2.tip_point_radius() - s2.ra) < 0.05:
            raise Skip("crossed: pointed")
        if s1.form_radius() is None or s2.form_radius() is None:
            raise Skip("crossed: undercut")
    g2 = make(dict(cls="HelicalGear", kw=k2, pos=c["pos"], rot=c["rot"], angle=c["ang"]))
    if c["crossed"] and c["b2"] == 0:
        k2.pop("helix_angle"); k2.pop("herringbone")
        g2 = make(dict(cls="SpurGear", kw=k2, pos=c["pos"], rot=c["rot"], angle=c["ang"]))
        mon.cover("spur_partner")
    g1 = make(dict(cls="HelicalGear", kw=k1))
    mon.near("pitch_radius", [g1.pitch_radius / mt1 / s1.rp, g2.pitch_radius / mt2 / s2.rp], 1.0, 1e-9)
    mon.near("tip_root_radius", [g1.addendum_radius / m, g1.dedendum_radius / m], [s1.rp / math.cos(c["b1"]) + c["ha"] + c["x1"], s1.rp / math.cos(c["b1"]) - c["hd"] + c["x1"]], 1e-5) if s1.tip_point_radius() > s1.ra + 0.12 else None
    dr = in_plane_dir(g2, c["phi"])
    g1.mesh_to(g2, target_dir=dr)
    c1, R1, a1, _ = pose(g1)
    c2, R2, a2, _ = pose(g2)
    mon.near("centre_in_plane", [float((c1 - c2) @ R2[:, 2]) / m, float(np.linalg.norm(np.cross(c1 - c2, dr))) / m], 0.0, 1e-7)
    # trace directions at the pitch point
    def trace(R, b, rhat):
        return unit(R[:, 2] + math.tan(b) * np.cross(R[:, 2], rhat))
    if not c["herr"]:
        t1, t2 = trace(R1, c["b1"], -dr), trace(R2, c["b2"], dr)
        mon.near("traces_parallel", np.cross(t1, t2), np.zeros(3), 1e-9)
    D = float(np.linalg.norm(c1 - c2))
    if not c["crossed"]:
        mon.near("parallel_axes", R1[:, 2], R2[:, 2], 1e-9)
        mon.cover("herringbone" if c["herr"] else "single")
        mon.near("centre_distance", D / mt1, d, 3e-6)
        undercut = s1.form_radius() is None or s2.form_radius() is None
        tight = eps > 1.25 and not undercut and not c["gl"]
        zv = g1.gearcore.z_vals
        dl = 0.004 / s1.rb
        p1 = 2 * PI / c["N1"]
        for f in (0.0, 0.31 + 0.3 * c["ph"], 1.0):
            z = zv[0] + f * (zv[-1] - zv[0])
            pair = PlanarPair(g1, g2, z, z, n=70)
            mon.near("coplanar", [pair.zspread / m, pair.zgap / m], 0.0, 1e-7)
            if not mon.true("simple_profile", pair.valid):
                return
            for j in range(4):
                th = p1 * (j + c["ph"]) / 4
                mon.le("no_interference", pair.overlap_at(th) / mt1 ** 2, 1e-5, phase=th / p1, z=z, eps=eps)
                if tight:
                    tt = pair.sign * th * pair.N1 / pair.N2
                    for s in (1, -1):
                        mon.le("contact_both_flanks", -pair.overlap_at(th + s * dl, tt) / mt1 ** 2, -2e-5, phase=th / p1, z=z, side=s)
        return
    mon.cover("crossed", "unequal_angles" if abs(abs(c["b1"]) - abs(c["b2"])) > 1e-9 else "equal_angles")
    S = c["b1"] + c["b2"]
    mon.near("shaft_angle", math.acos(max(-1, min(1, float(R1[:, 2] @ R2[:, 2])))), abs(S), 1e-7)
    want = (s1.rp * mt1 + s2.rp * mt2) / m + c["x1"] + c["x2"] - 2 * c["gl"] / math.tan(c["an"])
    mon.near("distance_crossed", D / m, want, 1e-5)
    # play asked for when meshing crossed shafts: measured along the common normal, both flanks
    h1 = make(dict(cls="HelicalGear", kw=k1))
    h1.mesh_to(g2, target_dir=dr, backlash=0.07 * m)
    mon.near("crossed_backlash", (float(np.linalg.norm(pose(h1)[0] - c2)) - D) / m, 0.07 / 2 / math.sin(c["an"]), 1e-5)
    mon.near("crossed_backlash", pose(h1)[1], R1, 1e-9)
    # space: surface of gear 1 against the untwisted section of gear 2
    U = Untwist(g2, c["b2"])
    P = c2 + dr * g2.pitch_radius
    k0 = near_tooth(g1, 0.0, P)
    T = [(k0 + j) % c["N1"] for j in (-2, -1, 0, 1, 2)]
    W = surf(g1, -2.6 * m / mt1, 2.6 * m / mt1, 45, 34, T)
    W = W[np.linalg.norm(W - P, axis=1) < 4.5 * m]
    ax = R1[:, 2]
    p1 = 2 * PI / c["N1"]
    best = 0.0
    for j in range(3):
        th = p1 * ((j + c["ph"]) / 3 - 0.5)
        Wt = (W - c1) @ rot_axis(ax, th).T + c1
        t2 = -th * c["N1"] / c["N2"]
        mon.le("no_penetration", U.depth(Wt, t2) * mt2 / m, 1.5e-3, phase=th / p1)
        if c["gl"] == 0 and c["x1"] == 0 and c["x2"] == 0 and j == 1:
            e = 0.03 * m / g1.pitch_radius
            for s in (1, -1):
                Wt = (W - c1) @ rot_axis(ax, th + s * e).T + c1
                mon.le("contact_in_space", -U.depth(Wt, t2) * mt2 / m, -4e-3, phase=th / p1, side=s)
