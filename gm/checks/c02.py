"""Internal (ring) pairs, both call directions: placement, exact distance, no overlap and two-sided contact through the roll.
Oracle: own internal-gear equations plus polygon intersection of sampled real profiles; pairs whose ideal textbook
profiles already collide are outside the domain."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen

PROP = "C02"
TECHNIQUE = "runtime monitoring: rolled-contact interference monitor over meshed ring pairs"
RULE = ("Case = pinion and ring (spur or helical), call direction, pose of the fixed gear, target direction; the meshed pair is rolled "
        "through one pitch at one or two heights. Non-trivial = placement and at least one rolled phase were evaluated.")
COUNT = {"quick": 420, "thorough": 6000}
REQUIRED = ["no_interference", "contact_both_flanks", "ring_moves", "pinion_moves", "helical", "direction", "generic_ring"]


def case(N1, N2, **k):
    c = dict(N1=N1, N2=N2, m=1.0, alpha=20 * PI / 180, x1=0.0, x2=0.0, ha=1.0, hd=1.2, ra=1.2, rd=1.0, rf=0.0, pos=None, rot=None, ang=0.0,
             phi=0.0, ph=0.13, ringmoves=False, gen=0, beta=0.0, herr=False, height=1.0, tf=0.0)
    c.update(k)
    return c


def corpus(tier):
    o = [case(13, 41, m=0.002, phi=1.3, ang=0.7), case(15, 44, m=0.0004, phi=-2.6, ang=2.0, ringmoves=True), case(12, 40), case(16, 60, m=2.0, phi=1.0, ang=0.4), case(20, 80, ringmoves=True), case(20, 45, ringmoves=True, phi=2.5, ang=1.0, rot=[.2, .4, .9], pos=[1, 2, 3]),
         case(18, 52, x1=0.3, x2=0.3, phi=-1.2), case(13, 77, rf=0.2, ringmoves=True, phi=PI), case(17, 60, beta=0.4, height=3, rot=[.5, .1, .3]),
         case(17, 60, beta=-0.5, height=3, ringmoves=True, phi=0.8), case(21, 63, beta=0.3, herr=True, height=4, m=2.0, phi=2.2),
         case(30, 47, alpha=25 * PI / 180, rd=0.8, ha=0.8, ang=7.0), case(14, 120, m=0.3, x1=0.2, x2=0.0), case(14, 90, x1=0.0, x2=0.3, phi=PI / 2, ringmoves=True)]
    return o


def draw(r, i, tier):
    N1 = gen.teeth(r, 10, 40)
    N2 = N1 + r.choice([12, 15, 20, 31, 50, 90]) + r.randint(0, 12)
    beta = 0.0 if r.random() < 0.6 else round(r.uniform(-0.6, 0.6), 3)
    x1 = x2 = 0.0
    k = r.random()
    if k < 0.3:
        x1 = x2 = round(r.uniform(-0.2, 0.4), 3)
    elif k < 0.5:
        x1, x2 = round(r.uniform(-0.1, 0.3), 3), round(r.uniform(-0.1, 0.4), 3)
    return case(N1, N2, m=gen.module(r), alpha=gen.pa(r), x1=x1, x2=x2, ha=r.choice([1.0, 1.0, 0.9]), hd=r.choice([1.2, 1.25]), ra=r.choice([1.2, 1.25]),
                rd=r.choice([1.0, 0.9, 0.8]), rf=r.choice([0.0, 0.0, 0.1, 0.2]), pos=gen.vec(r), rot=gen.rot(r), ang=gen.angle(r), phi=gen.direction_in_plane(r),
                ph=round(r.random(), 3), ringmoves=r.random() < 0.5, gen=r.choice([0, 0, 1, 2]), beta=beta, herr=bool(beta) and r.random() < 0.3, height=r.choice([1.0, 2.0, 5.0]))


def trans(c):
    """transverse quantities in units of the transverse module"""
    cb = math.cos(c["beta"])
    al = math.atan(math.tan(c["alpha"]) / cb)
    p = InvoluteSpec(c["N1"], al, c["x1"] * cb, c["ha"] * cb, c["hd"] * cb)
    r = InvoluteSpec(c["N2"], al, c["x2"] * cb, c["ra"] * cb, c["rd"] * cb, inside=True)
    return p, r, c["m"] / cb


def ideal_poly(s, ks, top, bot, n=40):
    """ideal textbook teeth ks around +x; open polyline"""
    out = []
    rs = np.linspace(max(bot, s.rb), top, n)
    h = np.array([s.half_angle(q) for q in rs])
    for k in ks:
        a0 = 2 * PI * k / s.N
        r = np.concatenate([[bot], rs, rs[::-1], [bot]])
        a = np.concatenate([[a0 - h[0]], a0 - h, a0 + h[::-1], [a0 + h[0]]])
        out.append(np.stack([r * np.cos(a), r * np.sin(a)], 1))
    return np.vstack(out)


def design_ok(p, r, d):
    w = 6
    # ring gap facing the pinion tooth at angle 0; pinion centre at +d on the x axis
    pin = Polygon(np.vstack([ideal_poly(p, range(-min(w, p.N // 2 - 1), min(w, p.N // 2 - 1) + 1), min(p.ra, p.tip_point_radius() - .02) + 0.04, p.rf, 90), [[0, 0]]]))
    rp = ideal_poly(r, range(-w, w + 1), min(r.ra, r.tip_point_radius() - 0.02), r.rf - 0.04, 90)
    big = r.ra * 1.5
    a0, a1 = math.atan2(rp[0, 1], rp[0, 0]), math.atan2(rp[-1, 1], rp[-1, 0])
    aa = np.linspace(a1, a0, 40)
    ring = Polygon(np.vstack([rp, np.stack([big * np.cos(aa), big * np.sin(aa)], 1)]))
    if not (pin.is_valid and ring.is_valid):
        return False
    for k in range(8):
        th = 2 * PI / p.N * k / 8
        a = affinity.translate(affinity.rotate(pin, th, origin=(0, 0), use_radians=True), d, 0)
        b = affinity.rotate(ring, th * p.N / r.N, origin=(0, 0), use_radians=True)
        if overlap(a, b) > 3e-5:
            return False
    return True


def run(c, mon):
    p, r, mt = trans(c)
    if r.rf <= r.rb + 0.02:
        raise Skip("ring tip below base circle")
    if p.undercut_excess() > 0.6:
        raise Skip("heavy undercut")
    d, aw = internal_distance(p, r)
    if not (d > 0.5) or r.ra - d - p.ra < 0.05 or r.rf - d - p.rf < 0.05 or aw < 0.08:
        raise Skip("no clearance by design")
    if p.tip_point_radius() < p.ra + 0.05 or r.tip_point_radius() < r.ra + 0.05:
        raise Skip("pointed")
    l0 = math.sqrt(r.rf ** 2 - r.rb ** 2) - d * math.sin(aw)
    f = p.form_radius()
    if l0 < 0.02 or (f is not None and l0 < math.sqrt(max(0, f * f - p.rb ** 2)) + 0.02) or (f is None and l0 < 0.25):
        raise Skip("involute interference by design")
    if not design_ok(p, r, d):
        raise Skip("tip interference by design")
    eps = (math.sqrt(p.ra ** 2 - p.rb ** 2) - l0) / (PI * math.cos(p.alpha))
    kw = dict(module=c["m"], pressure_angle=c["alpha"], height=c["height"] * c["m"])
    hel = c["beta"] != 0
    if hel:
        kw.update(helix_angle=c["beta"], herringbone=c["herr"])
    kp = dict(kw, number_of_teeth=c["N1"], profile_shift=c["x1"], addendum_coefficient=c["ha"], dedendum_coefficient=c["hd"], tip_fillet=c["tf"])
    kr = dict(kw, number_of_teeth=c["N2"], profile_shift=c["x2"], addendum_coefficient=c["ra"], dedendum_coefficient=c["rd"], root_fillet=c["rf"])
    rcls = "HelicalRingGear" if hel else "SpurRingGear"
    if c["gen"] and not hel:      # the generic class: explicit flag, or the documented negative tooth count
        rcls = "InvoluteGear"
        kr.update(enable_undercut=False, tip_truncation=0.0, **(dict(inside_teeth=True) if c["gen"] == 1 else dict(number_of_teeth=-c["N2"])))
        mon.cover("generic_ring")
    place = dict(pos=c["pos"], rot=c["rot"], angle=c["ang"])
    sp = dict(cls="HelicalGear" if hel else "SpurGear", kw=kp)
    sr = dict(cls=rcls, kw=kr)
    pin = make(dict(sp, **({} if not c["ringmoves"] else place)))
    ring = make(dict(sr, **({} if c["ringmoves"] else place)))
    mover, fixed = (ring, pin) if c["ringmoves"] else (pin, ring)
    dr = in_plane_dir(fixed, c["phi"])
    mover.mesh_to(fixed, target_dir=dr)
    mon.cover("ring_moves" if c["ringmoves"] else "pinion_moves", "helical" if hel else "spur")
    cm, cf_ = pose(mover)[0], pose(fixed)[0]
    mon.near("direction", (cm - cf_) / mt, dr * d, 3e-6, N=(c["N1"], c["N2"]))
    mon.near("parallel_axes", pose(mover)[1][:, 2], pose(fixed)[1][:, 2], 1e-9)
    zs = [0.0] if not hel else [0.0, pin.gearcore.z_vals[-1] * (0.37 + 0.6 * c["ph"])]
    for z in zs:
        pair = PlanarPair(pin, ring, z, z, n=160, width=5)
        mon.near("coplanar", [pair.zspread / mt, pair.zgap / mt], 0.0, 1e-7)
        if not mon.true("simple_profile", pair.valid):
            return
        p1 = 2 * PI / c["N1"]
        tight = eps > 1.25 and c["rf"] == 0
        dl = 0.006 / p.rb
        for j in range(5):
            th = p1 * (j + c["ph"]) / 5
            mon.le("no_interference", pair.overlap_at(th) / mt ** 2, 1e-5, phase=th / p1, eps=eps, z=z)
            if tight:
                t2 = pair.sign * th * pair.N1 / pair.N2
                for s in (1, -1):
                    mon.le("contact_both_flanks", -pair.overlap_at(th + s * dl, t2) / mt ** 2, -1.2e-4, phase=th / p1, eps=eps, side=s, z=z)
