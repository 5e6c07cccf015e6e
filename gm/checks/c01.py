"""External involute pairs: exact distance, no interference and two-sided contact through the whole roll.
Oracle: own involute equations for the distance and for the design limits; polygon intersection of the sampled real
profiles while both wheels are turned by the tooth ratio."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen

PROP = "C01"
TECHNIQUE = "runtime monitoring: rolled-contact interference monitor over meshed pairs"
RULE = ("Case = two external involute gears (tooth counts, module, pressure angle, profile shifts, coefficients, fillets), "
        "the placement of the fixed gear and a target direction; the pair is meshed with mesh_to and rolled through one pitch. "
        "Non-trivial = both sampled profiles are simple polygons and at least one rolled phase was evaluated.")
COUNT = {"quick": 800, "thorough": 9000}
REQUIRED = ["no_interference", "contact_both_flanks", "undercut", "shifted", "thinned", "moved_other"]


def case(N1, N2, m=1.0, alpha=20.0, x1=0.0, x2=0.0, ha=1.0, hd=1.2, uc=True, rf=0.0, tf=0.0, pos=None, rot=None,
         ang=0.0, phi=0.0, ph=0.0, height=1.0, bl1=0.0, bl2=0.0, cls="SpurGear"):
    return dict(N1=N1, N2=N2, m=m, alpha=alpha * PI / 180, x1=x1, x2=x2, ha=ha, hd=hd, uc=uc, rf=rf, tf=tf, pos=pos,
                rot=rot, ang=ang, phi=phi, ph=ph, height=height, bl1=bl1, bl2=bl2, cls=cls)


def corpus(tier):
    r3 = [0.2, 0.4, 0.9]
    out = [
        case(12, 30), case(7, 9), case(8, 80, m=0.5, phi=PI), case(24, 24, phi=1.234, ang=0.37),
        case(13, 121, m=2.0, x1=0.3, phi=-2.0, ang=5.0), case(30, 12, x1=-0.3, x2=0.3, m=3.0, pos=[5, -7, 2]),
        case(17, 23, rot=r3, pos=[1, 2, 3], ang=-0.8, phi=2.1), case(40, 61, alpha=14.5, phi=PI / 2),
        case(9, 33, alpha=25, x1=0.4, x2=0.2, rot=[0.9, 0.1, 0.5], phi=-PI / 2, ang=11.0),
        case(150, 19, m=0.3, phi=0.5), case(10, 10, x1=0.5, x2=-0.5), case(21, 35, tf=0.1), case(45, 50, uc=False, hd=1.25, rf=0.2),
        case(16, 48, x1=0.5, x2=0.5, alpha=22.5, phi=3.0, ang=1.0), case(22, 41, bl1=0.03, bl2=0.02, m=2.0, ang=0.3), case(26, 26, ha=0.8, hd=1.0, rot=r3),
        case(33, 77, m=7.0, pos=[100, 50, -20], phi=-0.3, ang=0.05), case(60, 60, uc=False, rf=0.0, hd=1.3),
        case(14, 25, m=0.002, phi=1.3, ang=0.7), case(31, 18, m=0.0004, phi=-2.6, ang=3.0, pos=[0.01, 0.02, -0.01]), case(18, 29, m=900.0, phi=2.2, ang=1.9),
        case(19, 20, x1=-0.2, x2=0.2, rot=[0.5, 0.5, 0.0], ang=2.0, phi=-3.0),
    ]
    return out


def draw(r, i, tier):
    N1, N2 = gen.teeth(r), gen.teeth(r)
    x1 = x2 = 0.0
    k = r.random()
    if k < 0.3:
        x1 = round(r.uniform(-0.4, 0.6), 3)
        x2 = -x1
    elif k < 0.65:
        x1, x2 = round(r.uniform(-0.2, 0.6), 3), round(r.uniform(-0.2, 0.6), 3)
    uc = r.random() < 0.85
    return dict(N1=N1, N2=N2, m=gen.module(r), alpha=gen.pa(r), x1=x1, x2=x2,
                ha=1.0 if r.random() < 0.7 else round(r.uniform(0.6, 1.1), 2), hd=1.2 if r.random() < 0.7 else round(r.uniform(1.15, 1.4), 2),
                uc=uc, rf=0.0 if uc else r.choice([0.0, 0.1, 0.25]), tf=r.choice([0, 0, 0, 0.1, 0.25]), pos=gen.vec(r), rot=gen.rot(r),
                ang=gen.angle(r), phi=gen.direction_in_plane(r), ph=r.random(), height=1.0,
                bl1=r.choice([0, 0, 0, 0.01, 0.03]), bl2=r.choice([0, 0, 0, 0.01, 0.03]), cls=r.choice(["SpurGear", "InvoluteGear"]))


def specs(c):
    s1 = InvoluteSpec(c["N1"], c["alpha"], c["x1"], c["ha"], c["hd"], c["bl1"])
    s2 = InvoluteSpec(c["N2"], c["alpha"], c["x2"], c["ha"], c["hd"], c["bl2"])
    return s1, s2


def eff_tip(s, trunc=0.1):
    rt = s.tip_point_radius()
    return min(s.ra, rt - trunc) if rt - trunc < s.ra else s.ra


def domain(c, s1, s2, aw_dist, aw):
    """analytic conditions under which the design itself is free of interference"""
    r1, r2 = eff_tip(s1), eff_tip(s2)
    if aw_dist - r1 - s2.rf < 0.03 or aw_dist - r2 - s1.rf < 0.03:
        raise Skip("no tip clearance by design")
    if abs(c["alpha"]) and (s1.rf < 0.6 or s2.rf < 0.6):
        raise Skip("root too small")
    if s1.tip_point_radius() < s1.rp + 0.35 or s2.tip_point_radius() < s2.rp + 0.35:
        raise Skip("pointed tooth")
    if c["uc"] and max(s1.undercut_excess(), s2.undercut_excess()) > 1.05:
        raise Skip("undercut eats the flank")
    ok = True
    for a, b, rb_tip in ((s1, s2, r2), (s2, s1, r1)):
        l = aw_dist * math.sin(aw) - math.sqrt(max(0, rb_tip ** 2 - b.rb ** 2))   # SAP of a
        f = a.form_radius()
        if c["uc"]:
            lim = None if f is None else math.sqrt(max(0.0, f * f - a.rb ** 2))
            if (abs(c["x1"] + c["x2"]) > 1e-9 or c.get("bl1") or c.get("bl2")) and (lim is None or l < lim + 1e-3):
                ok = False
        else:
            lim = math.sqrt(max(0.0, max(a.rf + c["rf"] * 1.2, a.rb) ** 2 - a.rb ** 2))
            if l < lim + 1e-2 or a.rf + c["rf"] > a.rb + 1.0:
                ok = False
    if not ok:
        raise Skip("involute interference by design")
    eps = (math.sqrt(max(0, r1 ** 2 - s1.rb ** 2)) + math.sqrt(max(0, r2 ** 2 - s2.rb ** 2)) - aw_dist * math.sin(aw)) / (
        PI * math.cos(c["alpha"]))
    return eps


def mk(c):
    k = dict(module=c["m"], pressure_angle=c["alpha"], addendum_coefficient=c["ha"], dedendum_coefficient=c["hd"],
             enable_undercut=c["uc"], root_fillet=c["rf"], tip_fillet=c["tf"], height=c["height"])
    g2 = make(dict(cls=c["cls"], kw=dict(k, number_of_teeth=c["N2"], profile_shift=c["x2"], backlash=c["bl2"]), pos=c["pos"], rot=c["rot"], angle=c["ang"]))
    g1 = make(dict(cls=c["cls"], kw=dict(k, number_of_teeth=c["N1"], profile_shift=c["x1"], backlash=c["bl1"])))
    return g1, g2


def run(c, mon):
    s1, s2 = specs(c)
    d, aw = external_distance(s1, s2)
    eps = domain(c, s1, s2, d, aw)
    m = c["m"]
    g1, g2 = mk(c)
    g1.mesh_to(g2, target_dir=in_plane_dir(g2, c["phi"]))
    pair = PlanarPair(g1, g2, 0.0, 0.0, n=70)
    mon.near("coplanar", [pair.zspread / m, pair.zgap / m], 0.0, 1e-7)
    mon.near("centre_distance", pair.dist / m, d, 2e-6, N=(c["N1"], c["N2"]))
    if not mon.true("simple_profile", pair.valid):
        return
    nph = 8 if c.get("ph") is not None else 6
    p1 = 2 * PI / c["N1"]
    undercut = (s1.form_radius() is None or s2.form_radius() is None)
    mon.cover("undercut" if undercut and c["uc"] else "not_undercut")
    if c["x1"] or c["x2"]:
        mon.cover("shifted")
    if c["bl1"] or c["bl2"]:
        mon.cover("thinned")
    if c["pos"] is not None or c["rot"] is not None:
        mon.cover("moved_other")
    tol = 1e-5
    tight = eps > 1.25 and not undercut and c["tf"] == 0
    dl = 0.004 / s1.rb
    for j in range(nph):
        th = p1 * (j + c["ph"]) / nph
        mon.le("no_interference", pair.overlap_at(th) / m ** 2, tol, phase=th / p1, eps=eps)
        if tight or j == 0:
            th = th if tight else 0.0
            t2 = pair.sign * th * pair.N1 / pair.N2
            thr = 2e-5
            if tight:
                mon.le("contact_both_flanks", -pair.overlap_at(th + dl, t2) / m ** 2, -thr, phase=th / p1, eps=eps)
                mon.le("contact_both_flanks", -pair.overlap_at(th - dl, t2) / m ** 2, -thr, phase=th / p1, eps=eps)
