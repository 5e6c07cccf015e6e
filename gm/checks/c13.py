"""Undercut roots against the generating rack itself. Oracle: every profile point is carried through the whole rolling motion of an ideal trapezoid rack;
the deepest penetration into the rack tooth must be zero (touching = generated) and never positive (material left where the rack passes)."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen
from . import c09

PROP = "C13"
TECHNIQUE = "runtime monitoring: rolling-rack penetration oracle over sections of real undercut gears"
RULE = ("Case = one external gear with undercut enabled and one section. Non-trivial = every sampled flank and root point was rolled past the rack "
        "(penetration monitor), the lower flank was classified as trochoid or involute and the junction radius compared with the analytic one.")
COUNT = {"quick": 360, "thorough": 8000}
REQUIRED = ["never_inside_rack", "touched_by_rack", "involute_kept", "undercut_case", "no_undercut_case", "root_on_circle", "junction", "helical", "shifted", "few_teeth", "below_base"]


def draw(r, i, tier):
    cls = ["SpurGear", "InvoluteGear", "HelicalGear", "SpurGear"][i % 4]
    N = r.randint(6, 17) if i % 3 == 0 else (r.randint(12, 30) if i % 3 == 1 else r.randint(18, 90))
    kw = dict(number_of_teeth=N, module=gen.module(r), enable_undercut=True, root_fillet=0.0, tip_fillet=0.0, tip_truncation=0.1, pressure_angle=gen.pa(r))
    kw["height"] = kw["module"] * r.choice([1, 2, 4])
    if r.random() < 0.6:
        kw["profile_shift"] = round(r.uniform(-0.3, 0.5), 3)
    if r.random() < 0.6:
        kw["dedendum_coefficient"] = round(r.uniform(1.0, 1.4), 3)
    if r.random() < 0.3:
        kw["addendum_coefficient"] = round(r.uniform(0.7, 1.1), 3)
    if r.random() < 0.3:
        kw["backlash"] = round(r.uniform(0.0, 0.1), 3)
    if r.random() < 0.2:
        kw["crowning"] = 60
    if cls == "HelicalGear":
        kw["helix_angle"] = round(r.uniform(-0.6, 0.6), 3)
    elif cls == "InvoluteGear" and r.random() < 0.5:
        kw["helix_angle"] = round(r.uniform(-0.5, 0.5), 3)
    return dict(cls=cls, kw=kw, f=r.choice([0.0, 0.5, round(r.random(), 3)]))


def corpus(tier):
    out = []
    for N in (6, 7, 8, 9, 10, 12, 14, 16, 17, 18, 20, 25, 32, 33, 34, 35, 40, 60):
        for a in (14.5, 20, 25):
            for x in (0.0, 0.3, -0.2):
                out.append(dict(cls="SpurGear", kw=dict(number_of_teeth=N, pressure_angle=math.radians(a), profile_shift=x, enable_undercut=True, root_fillet=0.0), f=0.0))
    # generating racks whose flanks meet before the full depth (pointed cutters)
    for N in (8, 10, 12, 15):
        for al, hd in ((28, 1.5), (30, 1.45), (27, 1.6), (28, 1.7)):
            out.append(dict(cls="SpurGear", kw=dict(number_of_teeth=N, pressure_angle=math.radians(al), dedendum_coefficient=hd, enable_undercut=True, root_fillet=0.0), f=0.0))
    return out


class Rack:
    """penetration depth of gear points into the generating rack during the whole roll (module 1 units)"""

    def __init__(self, sp):
        self.rp, self.h, self.al, self.w = sp.rp, sp.hd - sp.x, sp.alpha, sp.rp * sp.half

    def depth(self, P, phi):
        x = P[..., 0] * np.cos(phi) - P[..., 1] * np.sin(phi)
        y = P[..., 0] * np.sin(phi) + P[..., 1] * np.cos(phi) - self.rp * phi
        top = x - (self.rp - self.h)
        lo = -(self.w + (self.rp - x) * math.tan(self.al))          # flank facing this tooth
        hi = lo + 0 * x
        other = -(PI - self.w - (self.rp - x) * math.tan(self.al))  # flank facing the neighbour tooth (pitch pi)
        d1 = (hi - y) * math.cos(self.al)
        d2 = (y - other) * math.cos(self.al)
        return np.minimum(top, np.minimum(d1, d2))

    def worst(self, P):
        """max over the roll, per point"""
        span = 1.6 * math.sqrt(self.rp + 1) / self.rp + PI / self.rp
        ph = np.linspace(-span, span, 801)
        D = self.depth(P[:, None, :], ph[None, :])
        k = np.argmax(D, axis=1)
        best = D[np.arange(len(P)), k]
        lo, hi = ph[np.clip(k - 1, 0, 800)], ph[np.clip(k + 1, 0, 800)]
        g = (math.sqrt(5) - 1) / 2
        for _ in range(40):
            a, b = hi - g * (hi - lo), lo + g * (hi - lo)
            fa, fb = self.depth(P, a), self.depth(P, b)
            best = np.maximum(best, np.maximum(fa, fb))
            left = fa > fb
            hi = np.where(left, b, hi)
            lo = np.where(left, lo, a)
        return best


def run(c, mon):
    g = make(dict(cls=c["cls"], kw=c["kw"]))
    zv = g.gearcore.z_vals
    z = float(zv[0] + c["f"] * (zv[-1] - zv[0]))
    sp, _, cr = c09.spec_of(c["cls"], c["kw"], c["f"])
    if sp.undercut_excess() > 0.9 or sp.tip_point_radius() < sp.rp + 0.3:
        raise Skip("teeth eaten by the undercut or pointed below the pitch circle")
    corner = sp.rp * sp.half + (sp.hd - sp.x) * math.tan(sp.alpha)
    if PI / 2 - 0.02 < corner < PI / 2 + 0.02:
        raise Skip("generating rack tooth is nearly pointed")
    pr, parts = tooth_parts(g, z, 160)
    fl = parts["tooth_curve"][:, :2]
    rd = parts["rd_curve"][:, :2]
    r = np.hypot(fl[:, 0], fl[:, 1])
    R = Rack(sp)
    depth = R.worst(fl)
    if corner > PI / 2:
        # pointed cutter: its tip is where its flanks meet
        hp = (PI / 2 - sp.rp * sp.half) / math.tan(sp.alpha)
        mon.cover("pointed_cutter")
        mon.le("never_inside_rack", depth, 1e-4, N=sp.N, pointed=True)
        if sp.rb >= sp.rf:
            mon.le("touched_by_rack", -depth[r > sp.rp - hp + 1e-3], 2e-6, N=sp.N, pointed=True)
        return
    mon.le("never_inside_rack", depth, 1e-4, N=sp.N)
    form = sp.form_radius()
    mon.cover("undercut_case" if form is None else "no_undercut_case", *(["helical"] if "Helical" in c["cls"] else []), *(["shifted"] if sp.x else []), *(["few_teeth"] if sp.N < 12 else []), *(["below_base"] if sp.rb >= sp.rf else []))
    # the tip may be rounded/limited but every flank point is generated, except the involute continued below the form circle when the base circle is inside the root
    if sp.rb >= sp.rf:
        mon.le("touched_by_rack", -depth, 2e-6, N=sp.N)
        if len(rd):
            mon.le("touched_by_rack", -R.worst(np.vstack([rd[len(rd) // 2:]])), 2e-5)
    else:
        sel = r > form + 1e-6
        mon.le("touched_by_rack", -depth[sel], 2e-6, N=sp.N)
    j = form
    if form is None:
        j = undercut_radius(sp)
    sel = r > j + 2e-4
    if sel.any():
        want = np.array([-sp.half_angle(q) for q in r[sel]])
        got = np.arctan2(fl[sel, 1], fl[sel, 0])
        mon.near("involute_kept", got * r[sel], want * r[sel], 2e-6)
    if form is None and j == j:
        # the junction: the flank has a corner there, found where the distance to the involute starts to grow
        low = r < j - 2e-3
        q = r[low & (r > sp.rb)]
        if len(q):
            t = np.array([-sp.half_angle(v) for v in q]) * q
            a = np.arctan2(fl[low & (r > sp.rb), 1], fl[low & (r > sp.rb), 0]) * q
            mon.le("junction", t - a, 0.0)      # below the junction the tooth is thinner than the involute
        mon.true("junction", bool(sel.any()))
    mon.near("root_on_circle", r[0], sp.rf, 1e-4)
