"""Bevel pairs: common apex, axis angle, tangent pitch cones, and no overlap of the sections on the common sphere while rolling.
Oracle: own cone geometry; sections are projected centrally from the apex onto the tangent plane at the pitch line, where
polygon intersection is exact for the sampled curves."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen

PROP = "C05"
TECHNIQUE = "runtime monitoring: rolled-contact interference monitor on the common sphere of meshed bevel pairs"
RULE = ("Case = tooth counts, axis angle, pressure angle, helix, module, pose of the fixed gear, direction; the meshed pair is rolled through one pitch. "
        "Non-trivial = apex, axes and at least one rolled phase were evaluated.")
COUNT = {"quick": 150, "thorough": 2500}
REQUIRED = ["apex_coincides", "axis_angle", "pitch_line", "no_interference", "contact_both_flanks", "spiral", "moved", "sharp_axis", "blunt_axis", "crown", "internal_pinion_moved", "internal_ring_moved"]


def case(N1, N2, S=PI / 2, **k):
    c = dict(N1=N1, N2=N2, S=S, m=1.0, alpha=20 * PI / 180, beta=0.0, uc=True, pos=None, rot=None, ang=0.0, phi=0.0, ph=0.3, ha=1.0, hd=1.2, anchor=0.0, crown=False, tf=0.0, inner=None)
    c.update(k)
    return c


def corpus(tier):
    return [case(19, 32, m=0.002, phi=1.3, ang=0.7), case(20, 30), case(16, 31, phi=PI / 2, m=2.0, beta=0.5), case(17, 17, rot=[.3, .6, .2], pos=[3, 4, 5], ang=0.7, phi=2.0), case(24, 40, S=PI / 3, phi=-1.0, ang=3.0),
            case(25, 30, S=1.9, phi=1.0), case(13, 60, phi=PI), case(30, 15, m=0.5, ang=-4, phi=-2.5, rot=[.9, .2, .1]), case(20, 33, alpha=25 * PI / 180, anchor=0.5, beta=-0.4, phi=0.3),
            case(11, 40, crown=True, phi=0.75), case(13, 40, crown=True, phi=-2.0, rot=[.1, .8, .3]), case(28, 28, uc=False), case(22, 45, uc=False, alpha=22.5 * PI / 180, phi=1.5),
            case(18, 50, S=0.6, inner="pinion"), case(18, 50, S=0.6, inner="ring"), case(20, 60, S=0.4, inner="pinion", phi=2.0, rot=[.3, .6, .2], pos=[3, 4, 5], ang=0.7, m=2.0), case(20, 60, S=0.9, inner="ring", phi=-1.0, rot=[.1, .6, .9], pos=[1, -4, 5], ang=1.7, m=0.5),
            case(24, 64, S=0.3, inner="pinion", phi=2.0, beta=0.3), case(24, 64, S=0.3, inner="ring", phi=1.0, beta=-0.4, anchor=0.5),
            case(15, 48, S=0.6, phi=2.8), case(24, 17, beta=0.3, phi=-0.4, m=3.0, ang=1.0)]


def draw(r, i, tier):
    N1, N2 = gen.teeth(r, 10, 60), gen.teeth(r, 10, 60)
    if i % 6 == 5:
        N1 = r.randint(17, 34)
        return case(N1, N1 + r.randint(22, 50), S=round(r.uniform(0.15, 0.9), 3), m=gen.module(r), beta=r.choice([0, 0, 0.3, -0.4]), pos=gen.vec(r), rot=gen.rot(r), ang=gen.angle(r), phi=gen.direction_in_plane(r), ph=round(r.random(), 3),
                    anchor=r.choice([0, 0, 0.5, 1.0]), inner=r.choice(["pinion", "ring"]))
    return case(N1, N2, S=r.choice([PI / 2, PI / 2, PI / 3, 2 * PI / 3, round(r.uniform(0.4, 2.3), 3)]), m=gen.module(r), alpha=r.choice([20, 20, 25, 22.5, 17.5]) * PI / 180,
                beta=r.choice([0, 0, 0.3, -0.5]), uc=r.random() < 0.8, pos=gen.vec(r), rot=gen.rot(r), ang=gen.angle(r), phi=gen.direction_in_plane(r), ph=round(r.random(), 3),
                anchor=r.choice([0, 0, 0.5, 1.0]), crown=r.random() < 0.08)


def gammas(c):
    if c["crown"]:
        if c["N1"] >= c["N2"]:
            raise Skip("crown needs the larger wheel")
        return math.asin(c["N1"] / c["N2"]), PI / 2
    S = c["S"]
    g1 = math.atan2(math.sin(S), c["N2"] / c["N1"] + math.cos(S))
    g2 = S - g1
    if not (0.05 < g1 < 1.5 and 0.05 < g2 < 1.5):
        raise Skip("cone beyond a crown gear")
    return g1, g2


class SpherePair:
    def __init__(self, gears, zs, apex, contact, n, width):
        self.apex, self.R = apex, np.linalg.norm(contact - apex) / float(gears[0].gearcore.transform.scale)   # in modules
        self.dir = unit(contact - apex)
        self.items = []
        for g, z in zip(gears, zs):
            c, O, a, s = pose(g)
            ax = O[:, 2]
            pr, pts = slice_ref(g, z, n)
            N = int(g.number_of_teeth)
            w0 = applyT(applyT(pts, pr.transform), g.gearcore.transform) - apex
            rad = np.linalg.norm(w0, axis=1)
            self.radius = (rad.min(), rad.max())
            # which tooth faces the contact direction: azimuth about the axis
            e1 = unit(self.dir - ax * (self.dir @ ax))
            e2 = np.cross(ax, e1)
            p = w0[len(w0) // 2]
            k0 = -math.atan2(p @ e2, p @ e1) / (2 * PI / N)
            k0 = round(k0)
            w = min(width, (N - 1) // 2)
            P = np.vstack([w0 @ rot_axis(ax, 2 * PI / N * (k0 + j)).T for j in range(-w, w + 1)])
            d = P / np.linalg.norm(P, axis=1)[:, None]
            # closing arc, deeper into the body (towards the axis); the body side of the cone is around -ax
            pol = np.arccos(np.clip(-(d @ ax), -1, 1))
            inner = max(1e-3, pol.min() - 1.0 / self.R) if not bool(g.inside_teeth) else pol.max() + 1.0 / self.R
            az = np.arctan2(d @ e2, d @ e1)
            a1, a0 = az[-1], az[0]
            aa = np.linspace(a1, a0, 30)[:, None]
            clos = -ax * math.cos(inner) + math.sin(inner) * (np.cos(aa) * e1 + np.sin(aa) * e2)
            self.items.append((np.vstack([d, clos]), ax, N))
        t = self.dir
        h = unit(np.cross(t, [0.3, 0.5, 0.8]))
        self.b = (h, np.cross(t, h))

    def poly(self, i, th):
        d, ax, N = self.items[i]
        q = d @ rot_axis(ax, th).T
        den = q @ self.dir
        if den.min() < 0.15:
            return None
        P = np.stack([q @ self.b[0], q @ self.b[1]], 1) / den[:, None] * self.R
        return clean(Polygon(dedup(P, 1e-8)), 1e-5)


def internal(c, mon):
    """pinion inside a bevel ring: the half cone angles subtract, both wheels turn the same way; either one is moved"""
    N1, N2, S, m = c["N1"], c["N2"], c["S"], c["m"]
    # sin(g2)/sin(g1) = N2/N1, g2 - g1 = S
    g1a = math.atan2(math.sin(S), N2 / N1 - math.cos(S))
    g2a = g1a + S
    R = N1 / 2 / math.sin(g1a)
    if not 0.08 < g1a < g2a < 1.3 or R < 15:
        raise Skip("cone too blunt or teeth too coarse")
    h = min(0.25 * R, 3.0) * m
    kw = dict(module=m, pressure_angle=c["alpha"], height=h, z_anchor=c["anchor"])
    pin = dict(cls="InvoluteGear", kw=dict(kw, number_of_teeth=N1, cone_angle=2 * g1a, helix_angle=c["beta"], addendum_coefficient=0.9))
    rin = dict(cls="InvoluteGear", kw=dict(kw, number_of_teeth=N2, cone_angle=2 * g2a, helix_angle=c["beta"], inside_teeth=True, enable_undercut=False, addendum_coefficient=1.2, dedendum_coefficient=0.8))
    pos = dict(pos=c["pos"], rot=c["rot"], angle=c["ang"])
    if c["inner"] == "pinion":
        gp, gr = make(pin), make(dict(rin, **pos))
        u = in_plane_dir(gr, c["phi"])
        gp.mesh_to(gr, target_dir=u)
        mv, fx = gp, gr
    else:
        gp, gr = make(dict(pin, **pos)), make(rin)
        u = in_plane_dir(gp, c["phi"])
        gr.mesh_to(gp, target_dir=u)
        mv, fx = gr, gp
    mon.cover("internal_" + c["inner"] + "_moved")
    (c1, O1, _, _), (c2, O2, _, _) = pose(gp), pose(gr)
    rp1, rp2 = N1 / 2 * m, N2 / 2 * m
    A1, A2 = c1 + O1[:, 2] * rp1 / math.tan(g1a), c2 + O2[:, 2] * rp2 / math.tan(g2a)
    mon.near("apex_coincides", (A1 - A2) / m, np.zeros(3), 1e-7)
    mon.near("axis_angle", math.acos(np.clip(O1[:, 2] @ O2[:, 2], -1, 1)), S, 1e-7)
    mon.le("requested_side", -((pose(mv)[0] - pose(fx)[0]) @ u), -1e-6 * m, which=c["inner"])
    # contact: on the side of the pinion away from the ring's axis
    e = unit(O1[:, 2] - O2[:, 2] * (O1[:, 2] @ O2[:, 2]))
    P = c2 - rp2 * e
    mon.near("pitch_line", [np.linalg.norm(P - c1) / m - rp1 / m, (P - c1) @ O1[:, 2] / m], 0.0, 1e-7)
    apex = 0.5 * (A1 + A2)
    for z in ([0.0] if not c["beta"] else [0.0, h / m * (0.5 if c["anchor"] < 0.9 else -0.5)]):
        sp = SpherePair((gp, gr), (z, z), apex, P, 60, 3)
        k = (R - z) / R
        for j in range(4):
            th = 2 * PI / N1 * (j + c["ph"]) / 4
            a, b = sp.poly(0, th), sp.poly(1, th * N1 / N2)
            if a is None or b is None:
                raise Skip("projection")
            if not mon.true("simple_section", a.is_valid and b.is_valid):
                return
            mon.le("no_interference", overlap(a, b) / k ** 2, 1e-4, phase=th, z=z, which=c["inner"])
            for s in (1, -1):
                mon.le("contact_both_flanks", -overlap(sp.poly(0, th + s * 0.012 / (N1 / 2)), b) / k ** 2, -1e-4, side=s, z=z)


def run(c, mon):
    if c["inner"]:
        return internal(c, mon)
    g1a, g2a = gammas(c)
    N1, N2 = c["N1"], c["N2"]
    if not c["uc"] and min(N1 / max(1e-6, math.cos(g1a)), N2 / max(1e-6, math.cos(g2a))) * math.sin(c["alpha"]) ** 2 < 2 * 1.25:
        raise Skip("undercut disabled although needed")
    if min(N1 / math.cos(g1a), N2 / max(1e-6, math.cos(g2a))) < 9.5:
        raise Skip("too few equivalent teeth")
    R = N1 / 2 / math.sin(g1a)
    if 1.3 / R > 0.25 or R < 4.5:
        raise Skip("teeth too coarse for the sphere")
    if g2a + 1.2 / R > 1.9 or g1a - 1.3 / R < 0.02 or g2a - 1.3 / R < 0.02:
        raise Skip("tooth beyond the axis")
    m = c["m"]
    h = min(0.3 * R, 3.0) * m
    kw = dict(module=m, pressure_angle=c["alpha"], height=h, enable_undercut=c["uc"], z_anchor=c["anchor"], tip_fillet=c["tf"])
    g1 = make(dict(cls="BevelGear", kw=dict(kw, number_of_teeth=N1, cone_angle=2 * g1a, helix_angle=c["beta"])))
    g2 = make(dict(cls="BevelGear", kw=dict(kw, number_of_teeth=N2, cone_angle=2 * g2a, helix_angle=-c["beta"]), pos=c["pos"], rot=c["rot"], angle=c["ang"]))
    u = in_plane_dir(g2, c["phi"])
    g1.mesh_to(g2, target_dir=u)
    c1, O1, _, s1 = pose(g1)
    c2, O2, _, s2 = pose(g2)
    rp1, rp2 = N1 / 2 * m, N2 / 2 * m
    apex1 = c1 + O1[:, 2] * rp1 / math.tan(g1a)
    apex2 = c2 + O2[:, 2] * rp2 / math.tan(g2a)
    mon.near("apex_coincides", (apex1 - apex2) / m, np.zeros(3), 1e-7)
    mon.near("axis_angle", math.acos(np.clip(O1[:, 2] @ O2[:, 2], -1, 1)), g1a + g2a, 1e-7)
    P = c2 + rp2 * u
    mon.near("pitch_line", [np.linalg.norm(P - c1) / m - rp1 / m, (P - c1) @ O1[:, 2] / m], 0.0, 1e-7)
    mon.near("reported_apex", (np.asarray(g1.center_spherical, float) - apex1) / m, np.zeros(3), 1e-7)
    mon.near("reported_apex", (np.asarray(g2.center_spherical, float) - apex2) / m, np.zeros(3), 1e-7)
    mon.cover("spiral" if c["beta"] else "straight", "moved" if c["rot"] else "unrotated", "crown" if c["crown"] else "cone",
              "sharp_axis" if g1a + g2a < 1.5 else ("blunt_axis" if g1a + g2a > 1.6 else "right_axis"))
    apex = 0.5 * (apex1 + apex2)
    zs = [0.0] if not c["beta"] else [0.0, h / m * (0.5 if c["anchor"] < 0.9 else -0.5)]
    for z in zs:
        sp = SpherePair((g1, g2), (z, z), apex, P, 60, 3)
        Rz = (R - z)
        mon.near("on_sphere", [sp.radius[0] / m / Rz, sp.radius[1] / m / Rz], 1.0, 1e-5)
        p1 = 2 * PI / N1
        k = Rz / R
        nph = 4
        # profile heights seen on the mating flank decide whether both flanks always carry
        Nv1, Nv2 = N1 / math.cos(g1a), N2 / max(1e-6, math.cos(g2a))
        al = c["alpha"]
        v1, v2 = InvoluteSpec(min(Nv1, 500), al), InvoluteSpec(min(Nv2, 500), al)
        tight = max(v1.undercut_excess(), v2.undercut_excess()) < -0.05 and al > 0.3
        for j in range(nph):
            th = p1 * (j + c["ph"]) / nph
            b = sp.poly(1, -th * N1 / N2)
            a = sp.poly(0, th)
            if a is None or b is None:
                raise Skip("projection")
            if not mon.true("simple_section", a.is_valid and b.is_valid):
                return
            mon.le("no_interference", overlap(a, b) / k ** 2, 1e-5, phase=th / p1, z=z, gammas=(g1a, g2a))
            if tight:
                for s in (1, -1):
                    aa = sp.poly(0, th + s * 0.008 / (N1 / 2))
                    mon.le("contact_both_flanks", -overlap(aa, b) / k ** 2, -6e-5, phase=th / p1, side=s, z=z)
