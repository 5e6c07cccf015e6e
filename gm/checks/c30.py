"""Generating curves against their rolling laws. Oracle: kinematics - the instantaneous centre (axis) of the rolling element, the
no-slip arc relation, the sphere equation and the rigid moving frame for offsets; derivatives are taken numerically on the real functions."""
import math
import numpy as np
from ..geom import *
from .. import gen

PROP = "C30"
TECHNIQUE = "runtime monitoring: rolling-law (instantaneous centre, no-slip, sphere) oracles on generating-curve evaluations of the real library"
RULE = ("Case = one generating curve (planar or spherical involute, epi-/hypocycloid, conic cycloid, octoid) with random radii, sense, offsets and start angle, observed at 9 parameters and through its curve object. "
        "Non-trivial = position, tangent and distance laws were all evaluated.")
COUNT = {"quick": 900, "thorough": 20000}
KINDS = ["involute_circle", "involute_sphere", "cycloid_circle", "cycloid_cone", "octoid"]
REQUIRED = ["string_length", "string_tangent", "on_sphere", "great_circle", "instant_centre", "rolling_radius", "starts_on_base", "angle_shift", "z_shift", "offset_rigid", "flat_limit", "curve_object", "array_vs_single",
            "octoid_conjugate", "octoid_distance", "octoid_pressure", "octoid_mirror", "tooth_form", "hypo", "epi", "negative_cone", "negative_sense", "offset"] + KINDS


def draw(r, i, tier):
    return dict(kind=KINDS[i % 5], r=round(10 ** r.uniform(-1, 1.7), 4), ratio=round(r.uniform(0.15, 0.97), 4), cr=round(r.choice([-1, 1]) * r.uniform(0.08, 0.48), 4), sgn=r.choice([1, -1]),
                angle=r.choice([0.0, round(r.uniform(-7, 7), 4)]), offs=r.choice([None, [round(r.uniform(-0.2, 0.2), 3) for _ in range(3)]]), z=r.choice([0.0, round(r.uniform(-5, 5), 3)]), alpha=gen.pa(r) * r.choice([1, 1, -1]),
                t=[round(r.uniform(-1.2, 1.2), 4) for _ in range(8)] + [0.0])


def corpus(tier):
    base = dict(r=5.0, ratio=0.5, cr=0.3, sgn=1, angle=0.0, offs=None, z=0.0, alpha=math.radians(20), t=[-1.0, -0.3, 0.0, 0.2, 0.9])
    return [dict(base, kind=k, **d) for k in KINDS for d in (dict(), dict(sgn=-1), dict(cr=-0.3), dict(offs=[0.1, -0.2, 0.05]), dict(angle=1.0, z=2.0), dict(ratio=0.02), dict(cr=0.5), dict(cr=-0.5))]


def run(c, mon):
    import gggears.function_generators as fg
    import gggears.curve as crv
    k, r, a, z = c["kind"], c["r"], c["angle"], c["z"]
    off = np.array(c["offs"] or [0, 0, 0], float) * r
    mon.cover(k, *(["offset"] if c["offs"] else []))
    h = 1e-5
    sph = k in ("involute_sphere", "cycloid_cone", "octoid")
    s = c["sgn"] if k in ("involute_sphere", "cycloid_cone") else 1
    R = r / c["ratio"]
    apex = np.array([0, 0, s * math.sqrt(R * R - r * r)])
    rc = c["cr"] * r
    if k == "cycloid_cone" and abs(rc) > 0.9 * R:
        rc = math.copysign(0.9 * R, rc)
    if k.startswith("cycloid"):
        mon.cover("hypo" if rc < 0 else "epi")
    if s < 0:
        mon.cover("negative_cone")
    f0 = dict(involute_circle=lambda t, an, v, zz: fg.involute_circle(t, r=r, angle=an, v_offs=v, z_offs=zz),
              involute_sphere=lambda t, an, v, zz: fg.involute_sphere(t, r=r, C=s / R, angle=an, v_offs=v, z_offs=zz),
              cycloid_circle=lambda t, an, v, zz: fg.cycloid_circle(t, rb=r, rc=rc, angle=an, v_offs=v, z_offs=zz),
              cycloid_cone=lambda t, an, v, zz: fg.cycloid_cone(t, rb=r, rc=rc, C=s / R, angle=an, v_offs=v, z_offs=zz),
              octoid=lambda t, an, v, zz: fg.octoid(t, base_rad=r, sphere_rad=R, alpha=c["alpha"], angle=an))[k]
    f = lambda t, an=a, v=off * 0, zz=0.0: np.asarray(f0(float(t), an, v, zz), float)
    sc = r + abs(z) + (R if sph else 0)
    frames = []
    for t in c["t"]:
        if t < 0:
            mon.cover("negative_sense")
        P = f(t)
        V = (f(t + h) - f(t - h)) / 2 / h
        Q = r * np.array([math.cos(t + a), math.sin(t + a), 0.0])
        T = np.array([-math.sin(t + a), math.cos(t + a), 0.0])
        if k == "involute_circle":
            mon.near("string_length", np.linalg.norm(P - Q), r * abs(t), 1e-11 * sc)
            mon.near("string_tangent", P - Q, -r * t * T, 1e-11 * sc)
            mon.near("instant_centre", np.dot(V, P - Q), 0.0, 1e-7 * r * r)
            fr = np.stack([Q / r, T, [0, 0, 1.0]], 1)
        elif k == "involute_sphere":
            d, q = P - apex, Q - apex
            mon.near("on_sphere", np.linalg.norm(d), R, 1e-11 * R)
            ph = r * t / R
            mon.near("great_circle", d, q * math.cos(ph) - R * T * math.sin(ph), 1e-10 * R)
            mon.near("instant_centre", [np.dot(V, q) / R, np.dot(V, d) / R], [0, 0], 1e-6 * R)
            e = q * math.sin(ph) + R * T * math.cos(ph)
            fr = np.stack([d / R, e / R, np.cross(d, e) / R / R], 1)
        elif k == "cycloid_circle":
            C0 = (r + rc) * Q / r
            mon.near("rolling_radius", np.linalg.norm(P - C0), abs(rc), 1e-11 * sc)
            mon.near("instant_centre", np.dot(V, P - Q), 0.0, 1e-5 * r * r / abs(c["cr"]))
            be = t + a + t * r / rc
            fr = rotz(be)
        elif k == "cycloid_cone":
            d, q = P - apex, Q - apex
            mon.near("on_sphere", np.linalg.norm(d), R, 1e-10 * R)
            vs = max(1.0, np.linalg.norm(V))
            mon.near("instant_centre", [np.dot(V, q) / R / vs, np.dot(V, d) / R / vs], [0, 0], 2e-6 * max(1, 1 / abs(rc / r)) ** 2)
            g1, g2 = math.asin(r / R), math.asin(rc / R)
            ax = apex - 0
            # axis of the rolling cone lies in the meridian plane at gamma1 + gamma2 from the main axis
            u = math.cos(g1 + g2) * np.array([0, 0, -s]) + math.sin(g1 + g2) * Q / r
            mon.near("rolling_radius", np.dot(d, u), R * math.cos(g2), 1e-10 * R)
            fr = None
        else:
            d, q = P - apex, Q - apex
            mon.near("on_sphere", np.linalg.norm(d), R, 1e-10 * R)
            vs = max(np.linalg.norm(V), 1e-3 * r)
            for sg in (1,):
                mon.near("octoid_conjugate", np.dot(V, q) / R / vs, 0.0, 1e-5, t=t)
            sd = np.linalg.norm(np.cross(d, q)) / R / R
            mon.near("octoid_distance", sd, abs(math.sin(t * r / R)) * math.cos(c["alpha"]), 1e-9)
            # the opposite pressure angle gives the mirrored flank; with a positive one the flank rises outwards in the positive sense
            mir = np.asarray(fg.octoid(-t, base_rad=r, sphere_rad=R, alpha=-c["alpha"], angle=-a), float)
            mon.near("octoid_mirror", mir, P * [1, -1, 1], 1e-10 * R)
            if t == 0.0:
                mon.true("octoid_mirror", (math.hypot(*f(0.01)[:2]) - math.hypot(*f(-0.01)[:2])) * c["alpha"] > 0, what="rises outwards")
            fr = None
        mon.near("z_shift", f(t, zz=z) if k != "octoid" else P, P + (z * np.array([0, 0, 1.0]) if k != "octoid" else 0), 1e-12 * sc)
        mon.near("angle_shift", f(t, an=a + 0.7), P @ rotz(0.7).T, 1e-11 * sc)
        if c["offs"] and k != "octoid":
            D = f(t, v=off) - P
            mon.near("offset_rigid", np.linalg.norm(D), np.linalg.norm(off), 1e-10 * sc)
            if fr is not None:
                frames.append(fr.T @ D)
            if k == "cycloid_cone":
                Vo = (f(t + h, v=off) - f(t - h, v=off)) / 2 / h
                do = f(t, v=off) - apex
                vs = max(1.0, np.linalg.norm(Vo))
                mon.near("offset_rigid", [np.dot(Vo, Q - apex) / R / vs, np.dot(Vo, do) / R / vs], [0, 0], 2e-6 * max(1, r / abs(rc)) ** 2 * (1 + np.linalg.norm(off) / r))
        if t == 0.0:
            mon.near("starts_on_base", P, r * np.array([math.cos(a), math.sin(a), 0]), 1e-11 * sc)
            if k == "octoid":
                V0 = (f(1e-3) - f(-1e-3))
                mer = np.cross(np.cross(P - apex, [0, 0, 1.0]), P - apex)
                ca = abs(np.dot(unit(V0), unit(mer)))
                # the curve crosses the pitch circle at the pressure angle
                mon.near("octoid_pressure", math.acos(min(1, ca)), abs(c["alpha"]), 2e-3)
    if len(frames) > 1:
        mon.near("offset_rigid", np.array(frames[1:]), np.repeat([frames[0]], len(frames) - 1, 0), 1e-9 * sc)
        if k == "involute_circle":
            mon.near("offset_rigid", frames[0], off, 1e-10 * sc)
    if k in ("involute_sphere", "cycloid_cone"):
        Rb = r * 1e6
        g = fg.involute_sphere if k == "involute_sphere" else fg.cycloid_cone
        kw = dict(r=r) if k == "involute_sphere" else dict(rb=r, rc=rc)
        fl = fg.involute_circle if k == "involute_sphere" else fg.cycloid_circle
        for t in c["t"][:4]:
            mon.near("flat_limit", np.asarray(g(t, C=s / Rb, angle=a, v_offs=off, z_offs=z, **kw)), np.asarray(fl(t, angle=a, v_offs=off, z_offs=z, **kw)), 3e-5 * r)
            mon.near("flat_limit", np.asarray(g(t, C=0, angle=a, v_offs=off, z_offs=z, **kw)), np.asarray(fl(t, angle=a, v_offs=off, z_offs=z, **kw)), 0.0)
    if k == "involute_sphere":
        # the conical tooth form made from it: on the pitch sphere, through the pitch circle at the requested place and pressure angle, up to the symmetry plane
        from gggears.gearteeth import InvoluteTooth
        N = 8 + int(abs(c["t"][0]) * 40)
        al, gam = abs(c["alpha"]), s * math.asin(min(max(c["ratio"], 0.1), 0.95))
        half = PI / 2 / N * (1 + 0.2 * math.sin(r))
        ch = InvoluteTooth(pitch_intersect_angle=half, pitch_radius=N / 2, cone_angle=2 * gam, pressure_angle=al).generate_tooth_curve()
        con, fl = ch.curves
        Rt = N / 2 / abs(math.sin(gam))
        ap = np.array([0, 0, s * Rt * math.cos(gam)])
        P = np.asarray(fl(np.linspace(0, 1, 2001)), float)
        rr = np.hypot(P[:, 0], P[:, 1])
        mon.near("tooth_form", np.linalg.norm(P - ap, axis=1) / Rt, 1.0, 1e-10)
        mon.near("tooth_form", P[-1, 1] / N, 0.0, 1e-9)
        mon.near("tooth_form", np.asarray(con(1.0)) - P[0], np.zeros(3), 1e-9 * N)
        if rr[0] < N / 2 * 0.9999:
            i = int(np.argmin(np.abs(rr - N / 2)))
            mon.near("tooth_form", np.interp(N / 2, rr, np.arctan2(P[:, 1], P[:, 0])), -half, 2e-6)
            mon.near("tooth_form", np.interp(N / 2, rr, P[:, 2]) / N, 0.0, 2e-6)
            d = P[i] - ap
            mer = unit(np.cross(np.cross(d, [0, 0, 1.0]), d))
            mon.near("tooth_form", math.acos(min(1, abs(float(unit(P[i + 1] - P[i - 1]) @ mer)))), al, 2e-3)
    t0, t1 = sorted(c["t"][:2])
    if t1 - t0 > 0.05:
        cu = dict(involute_circle=lambda: crv.InvoluteCurve(r=r, t0=t0, t1=t1, angle=a, v_offs=off, z_offs=z), involute_sphere=lambda: crv.SphericalInvoluteCurve(r=r, t0=t0, t1=t1, angle=a, c_sphere=s / R, v_offs=off, z_offs=z),
                  cycloid_circle=lambda: crv.CycloidCurve(rb=r, rc=rc, angle=a, v_offs=off, z_offs=z, t0=t0, t1=t1), cycloid_cone=lambda: crv.CycloidConicCurve(rb=r, rc=rc, angle=a, C=s / R, v_offs=off, z_offs=z, t0=t0, t1=t1),
                  octoid=lambda: crv.OctoidCurve(r=r, t0=t0, t1=t1, angle=a, c_sphere=1 / R, alpha=c["alpha"]))[k]()
        ss = np.array([0.0, 1.0, 0.3, 0.77])
        got = np.asarray(cu(ss))
        want = np.array([f(float(cu.s2t(x)), v=off if k != "octoid" else 0 * off, zz=z if k != "octoid" else 0.0) for x in ss])
        mon.near("curve_object", got, want, 1e-11 * sc)
        mon.near("curve_object", got[:2], np.array([f(t0, v=off, zz=z), f(t1, v=off, zz=z)]), 1e-11 * sc)
        mon.near("array_vs_single", np.array([np.asarray(cu(float(x))) for x in ss]), got, 1e-12 * sc)
        if k in ("involute_sphere", "octoid"):
            mon.near("curve_object", [abs(cu.R), cu.base_radius], [R, r], 1e-9 * R)
            mon.near("curve_object", cu.center_sphere, apex + [0, 0, z if k != "octoid" else 0.0], 1e-9 * R)
