"""Backlash requested at meshing is the measured free play of the moved wheel; bias selects the side that touches.
Oracle: turning the moved wheel of the sampled real pair until its profile starts to overlap the fixed one, at several
rolled phases; centre distance from own involute equations."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen
from . import c01, c02

PROP = "C03"
TECHNIQUE = "runtime monitoring: measured free-play monitor on meshed pairs"
RULE = ("Case = a compatible pair (external, ring, helical), a backlash length and a bias; the moved wheel is turned within and beyond "
        "the promised play at several rolled phases. Non-trivial = both sides of the play were measured.")
COUNT = {"quick": 450, "thorough": 5000}
REQUIRED = ["free_within_play", "touch_beyond_play", "centre_distance", "bias_angle", "external", "internal", "helical", "bias_extreme"]


def corpus(tier):
    o = []
    for i, (b, q) in enumerate([(0.1, 0), (0.1, 1), (0.1, -1), (0.3, 0.5), (0.02, -0.3), (0.2, 1)]):
        o.append(dict(kind="ext", b=b, q=q, base=c01.case(24, 31, m=[1, 2, 0.5, 3, 1, 7][i], phi=0.9 * i, ang=0.3 * i, pos=[1, 2, 3], rot=[.2, .3, .4] if i % 2 else None)))
        o.append(dict(kind="int", b=b, q=q, base=c02.case(20, 60, m=[1, 2, 0.5, 3, 1, 7][i], phi=0.9 * i, ang=0.3 * i, ringmoves=bool(i % 2), rot=[.2, .3, .4] if i > 2 else None)))
        o.append(dict(kind="hel", b=b, q=q, beta=[0.3, -0.5, 0.2][i % 3], base=c01.case(24, 31, m=[1, 2, 0.5, 3, 1, 7][i], phi=0.9 * i, ang=0.3 * i)))
    return o


def draw(r, i, tier):
    kind = r.choice(["ext", "ext", "int", "hel"])
    base = c02.draw(r, i, tier) if kind == "int" else c01.draw(r, i, tier)
    if kind != "int":
        base["N1"], base["N2"] = max(r.randint(18, 30), base["N1"]), max(r.randint(18, 30), base["N2"])
        base["tf"] = 0.0
    else:
        base["rf"] = 0.0
        dN = base["N2"] - base["N1"]
        base["N1"] = max(base["N1"], 18)
        base["N2"] = base["N1"] + max(dN, 18)
        base["rd"] = 0.8
    return dict(kind=kind, b=round(r.choice([0.02, 0.05, 0.1, 0.3]) * r.uniform(0.7, 1.3), 4), q=r.choice([0.0, 1.0, -1.0, 0.5, round(r.uniform(-1, 1), 3)]),
                beta=round(r.uniform(-0.6, 0.6), 3), base=base)


def run(c, mon):
    k = c["base"]
    mt = k["m"]
    import gggears as gg
    if c["kind"] == "int":
        p, r, mt = c02.trans(k)
        b = c["b"] * mt
        if r.rf <= r.rb + 0.02 or p.undercut_excess() > 0:
            raise Skip("domain")
        d, aw = internal_distance(p, r, 1.0, c["b"])
        d0, aw0 = internal_distance(p, r)
        if r.ra - d - p.ra < 0.05 or r.rf - d - p.rf < 0.05 or min(aw, aw0) < 0.08 or p.tip_point_radius() < p.ra + .05 or r.tip_point_radius() < r.ra + .05:
            raise Skip("clearance")
        l0 = math.sqrt(r.rf ** 2 - r.rb ** 2) - d * math.sin(aw)
        f = p.form_radius()
        if f is None or l0 < math.sqrt(max(0, f * f - p.rb ** 2)) + 0.02 or not c02.design_ok(p, r, d):
            raise Skip("design interference")
        eps = (math.sqrt(p.ra ** 2 - p.rb ** 2) - l0) / (PI * math.cos(p.alpha))
        kw = dict(module=k["m"], pressure_angle=k["alpha"], height=k["height"] * k["m"])
        hel = k["beta"] != 0
        if hel:
            kw.update(helix_angle=k["beta"], herringbone=k["herr"])
        kp = dict(kw, number_of_teeth=k["N1"], profile_shift=k["x1"], addendum_coefficient=k["ha"], dedendum_coefficient=k["hd"])
        kr = dict(kw, number_of_teeth=k["N2"], profile_shift=k["x2"], addendum_coefficient=k["ra"], dedendum_coefficient=k["rd"], root_fillet=0.0)
        place = dict(pos=k["pos"], rot=k["rot"], angle=k["ang"])
        pin = make(dict(cls="HelicalGear" if hel else "SpurGear", kw=kp, **(place if k["ringmoves"] else {})))
        ring = make(dict(cls="HelicalRingGear" if hel else "SpurRingGear", kw=kr, **({} if k["ringmoves"] else place)))
        g1, g2 = (ring, pin) if k["ringmoves"] else (pin, ring)
        rb1 = (r if k["ringmoves"] else p).rb
        mon.cover("internal")
    else:
        cb = 1.0
        k = dict(k)
        if c["kind"] == "hel":
            cb = math.cos(c["beta"])
            al = math.atan(math.tan(k["alpha"]) / cb)
            s1 = InvoluteSpec(k["N1"], al, k["x1"] * cb, k["ha"] * cb, k["hd"] * cb)
            s2 = InvoluteSpec(k["N2"], al, k["x2"] * cb, k["ha"] * cb, k["hd"] * cb)
            mt = k["m"] / cb
        else:
            s1, s2 = c01.specs(k)
        b = c["b"] * mt
        d, aw = external_distance(s1, s2, 1.0, c["b"])
        if max(s1.undercut_excess(), s2.undercut_excess()) > -0.01:
            raise Skip("undercut")
        kk = dict(k, alpha=s1.alpha)
        eps = c01.domain(kk, s1, s2, d, aw)
        c01.domain(kk, s1, s2, *external_distance(s1, s2))
        if min(s1.tip_point_radius() - s1.ra, s2.tip_point_radius() - s2.ra) < 0.11:
            raise Skip("pointed")
        kw = dict(module=k["m"], pressure_angle=k["alpha"], addendum_coefficient=k["ha"], dedendum_coefficient=k["hd"], enable_undercut=k["uc"], root_fillet=k["rf"])
        if c["kind"] == "hel":
            g1 = make(dict(cls="HelicalGear", kw=dict(kw, number_of_teeth=k["N1"], profile_shift=k["x1"], helix_angle=c["beta"])))
            g2 = make(dict(cls="HelicalGear", kw=dict(kw, number_of_teeth=k["N2"], profile_shift=k["x2"], helix_angle=-c["beta"]), pos=k["pos"], rot=k["rot"], angle=k["ang"]))
            mon.cover("helical")
        else:
            g1, g2 = c01.mk(k)
            mon.cover("external")
        rb1 = s1.rb
    dr = in_plane_dir(g2, k["phi"])
    g1.mesh_to(g2, target_dir=dr, backlash=b, angle_bias=0.0)
    a0 = float(g1.gearcore.transform.angle)
    g1.mesh_to(g2, target_dir=dr, backlash=b, angle_bias=c["q"])
    a1 = float(g1.gearcore.transform.angle)
    want = c["q"] / 2 * c["b"] / rb1
    pit = 2 * PI / int(g1.number_of_teeth)
    mon.near("bias_angle", (a1 - a0 - want + pit / 2) % pit - pit / 2, 0.0, 1e-9, got_angle=a1 - a0, want_angle=want)
    mon.near("centre_distance", np.linalg.norm(pose(g1)[0] - pose(g2)[0]) / mt, d, 3e-6)
    if eps < 1.25:
        raise Skip("contact ratio too small to observe")
    if abs(c["q"]) == 1:
        mon.cover("bias_extreme")
    n = 160 if c["kind"] == "int" else 100
    pair = PlanarPair(g1, g2, 0.0, 0.0, n=n, width=5)
    if not mon.true("simple_profile", pair.valid):
        return
    play = c["b"] / rb1
    up, dn = (1 - c["q"]) / 2 * play, (1 + c["q"]) / 2 * play
    pit = 2 * PI / pair.N1
    for j in range(3):
        th = pit * (j + k["ph"]) / 3
        t2 = pair.sign * th * pair.N1 / pair.N2
        ctx = dict(phase=th / pit, play=c["b"], q=c["q"], kind=c["kind"])
        eg = 0.004 / rb1
        mon.le("free_within_play", pair.overlap_at(th + max(0, up - 0.001 / rb1), t2) / mt ** 2, 1e-5, side=1, **ctx)
        mon.le("free_within_play", pair.overlap_at(th - max(0, dn - 0.001 / rb1), t2) / mt ** 2, 1e-5, side=-1, **ctx)
        mon.le("touch_beyond_play", -pair.overlap_at(th + up + eg, t2) / mt ** 2, -2e-5, side=1, **ctx)
        mon.le("touch_beyond_play", -pair.overlap_at(th - dn - eg, t2) / mt ** 2, -2e-5, side=-1, **ctx)
