"""Derived curves: random sources (every kind, trimmed, reversed, chained), wrapped up to four deep by rotation, mirror, affine/nonlinear maps, sums, differences and
multiples; every derived curve is compared pointwise with the mapped points of its source, its source is watched for side effects, and copies for sharing."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from .. import curvegen as cg

PROP = "C24"
TECHNIQUE = "runtime monitoring: online comparison of derived curves with independently mapped source points, plus aliasing monitors on sources and copies"
RULE = "Case = a source curve (kind, trim, reversal or chain) and a stack of derivations. Non-trivial = the whole stack was built and compared at 200+ points, and the source was re-read afterwards."
COUNT = {"quick": 300, "thorough": 9000}
WRAPS = ["rotate", "mirror", "affine", "nonlinear", "mul", "rmul", "div", "add", "sub", "placed", "shape_transform", "placed_shape"]
REQUIRED = ["on_image", "ends", "proportional", "length", "array_vs_single", "source_untouched", "copy_equal", "copy_independent_of_source", "copy_does_not_write_back", "arc_radius", "arc_center", "arc_axis", "arc_angle", "shape_pointwise",
            "trimmed", "reversed", "chain", "trimmed_shape", "mirrored_shape", "derived_reverse", "derived_trim", "active_kept", "arc_constructor", "arc_side", "arc_turns"] + ["wrap:" + w for w in WRAPS]


def wrap(r, shape=False):
    k = r.choice(WRAPS[-2:] * 2 + WRAPS[:-2]) if shape else r.choice(WRAPS[:-2])
    v = lambda s=3: [round(r.uniform(-s, s), 3) for _ in range(3)]
    return dict(w=k, v=v(), c=v(), a=round(r.uniform(-6, 6), 3), k=round(r.choice([-1, 1]) * 10 ** r.uniform(-0.7, 0.7), 3), rot=[r.random(), r.random(), r.random()], m=bool(r.random() < 0.4), curve=cg.draw(r, r.choice(["line", "arc"])))


def draw(r, i, tier):
    if i % 10 == 9:
        return dict(arcs=dict(p0=[round(r.uniform(-5, 5), 3) for _ in range(3)], p1=[round(r.uniform(-5, 5), 3) for _ in range(3)], axis=[round(r.uniform(-1, 1), 3) for _ in range(3)], k=round(r.choice([-1, 1]) * 10 ** r.uniform(-2, 0.3), 4), n=r.choice([0, 0, 1, 2, -1]), a=round(r.uniform(-9, 9), 3), act=r.random() < 0.7))
    shape = i % 4 == 0
    src = r.choice(["one", "one", "chain"]) if not shape else "one"
    n = 1 if src == "one" else r.randint(2, 4)
    kinds = ["line", "arc"] if shape else cg.SIMPLE
    return dict(shape=shape, src=src, curves=[cg.draw(r, r.choice(kinds)) for _ in range(n)], trim=None if r.random() < 0.5 else sorted([round(r.uniform(0, 0.4), 3), round(r.uniform(0.6, 1), 3)]), rev=r.random() < 0.3,
                wraps=[wrap(r, shape and j == 0) for j in range(r.choice([1, 1, 2, 3, 4]) if not shape else r.choice([1, 1, 2]))], then=r.choice(["none", "reverse", "trim"]), s=[round(r.random(), 4) for _ in range(3)])


def corpus(tier):
    import random
    out = []
    for k, w in enumerate(WRAPS):
        for j in range(2):
            r = random.Random(f"c24{k}{j}")
            c = draw(r, 0 if w in WRAPS[-2:] else 1, tier)
            c["wraps"] = c["wraps"][:1]
            c["wraps"][0].update(w=w, m=bool(j))
            c["trim"], c["rev"] = ([0.2, 0.7], bool(j)) if j else (None, False)
            out.append(c)
    return out


def same_speed(a, b):
    return True


def derive(crv, cur, d, mon):
    """-> (derived curve, pointwise map on (point, native t))  native t: parameter handed to the source"""
    from gggears.gggears_base_classes import GearTransform
    w, c = d["w"], np.array(d["c"], float)
    R = rand_rot(d["rot"])
    if w == "rotate":
        ax = R[:, 2] * abs(d["k"])           # axis of any length
        A = rot_axis(R[:, 2], d["a"])
        return crv.RotatedCurve(cur, angle=d["a"], axis=ax, center=c.copy()), lambda p, t: (p - c) @ A.T + c
    if w == "mirror":
        nrm = R[:, 0]
        return crv.MirroredCurve(cur, plane_normal=nrm * abs(d["k"]), center=c.copy()), lambda p, t: p - 2 * ((p - c) @ nrm)[:, None] * nrm
    if w == "affine":
        A = R @ np.diag([1.0, d["k"], 0.5 + abs(d["k"])])
        return crv.TransformedCurve(lambda p: p @ A.T + c, cur), lambda p, t: p @ A.T + c
    if w == "nonlinear":
        f = lambda p: p + 0.2 * np.sin(0.3 * p + c)
        return crv.TransformedCurve(f, cur), lambda p, t: f(p)
    if w in ("mul", "rmul", "div"):
        k = d["k"]
        return (cur * k if w == "mul" else k * cur if w == "rmul" else cur / k), lambda p, t: p * k if w != "div" else p / k
    if w in ("add", "sub"):
        o = cg.build(d["curve"])[0]
        sg = 1 if w == "add" else -1
        return (cur + o if w == "add" else cur - o), lambda p, t: p + sg * np.array([np.asarray(o(float(x)), float) for x in t])
    A = R @ np.diag([-1.0, 1, 1]) if d["m"] and w == "shape_transform" else R
    k = abs(d["k"])
    f = lambda p: k * (p @ A.T) + c
    if w == "placed":
        T = GearTransform(center=c.copy(), orientation=R.copy(), scale=k)
        return crv.TransformedCurve(T, cur), lambda p, t: f(p)
    if w == "placed_shape":
        T = GearTransform(center=c.copy(), orientation=R.copy(), scale=k, angle=d["a"])
        Z = rotz(d["a"])
        g = lambda p: k * (p @ (R @ Z).T) + c
        return cur.transform(T), lambda p, t: g(p)
    if d["m"]:
        mon.cover("mirrored_shape")
    return cur.transform(f), lambda p, t: f(p)


def state(cs, crv):
    out = []
    for x in cs:
        out += [np.asarray(x(np.linspace(0, 1, 9)), float).ravel(), [float(x.length)]]
        if not isinstance(x, crv.CurveChain):
            out.append([float(x.t_0), float(x.t_1)])
    return np.concatenate(out)


def arcs(c, mon):
    """the ways to construct an arc, each against the circle its arguments define"""
    import gggears.curve as crv
    p0, p1, ax, k, n = np.array(c["p0"]), np.array(c["p1"]), np.array(c["axis"]), c["k"], c["n"]
    d = np.linalg.norm(p1 - p0)
    dp = (p1 - p0) / max(d, 1e-9)
    nz = ax - (ax @ dp) * dp
    if d < 0.3 or np.linalg.norm(nz) < 0.2:
        raise Skip("degenerate")
    nz = unit(nz)
    ss = np.linspace(0, 1, 41)

    def circle(a, ctr, r, nrm, ang, tag):
        P = np.asarray(a(ss), float)
        sc = 1 + np.abs(P).max() + r
        x = unit(P[0] - ctr)
        y = np.cross(nrm, x)
        want = ctr + r * (np.cos(ss * ang)[:, None] * x + np.sin(ss * ang)[:, None] * y)
        mon.near("arc_constructor", P, want, 1e-7 * sc, tag=tag)
        mon.near("arc_constructor", [float(a.radius), float(a.r), 1 / float(a.curvature), float(a.length) if c["act"] else r * abs(ang)], [r, r, r, r * abs(ang)], 1e-7 * (1 + r * abs(ang)), tag=tag)
        mon.near("arc_constructor", [np.asarray(a.center, float), np.asarray(a.p0, float), np.asarray(a.p1, float)], [ctr, P[0], P[-1]], 1e-7 * sc, tag=tag)
        mon.near("arc_constructor", [float(a.angle), *np.asarray(a.axis, float)], [ang, *nrm], 1e-7, tag=tag)
        mon.true("active_kept", bool(a.active) == c["act"], tag=tag)
        # yaw, pitch and roll describe the same attitude as the matrix, also after the matrix was assigned
        b = crv.ArcCurve(radius=r, angle=ang, center=ctr.copy(), yaw=0.4, pitch=0.3, roll=-0.7)
        b.rotmat = np.array(a.rotmat, float)
        mon.near("arc_constructor", np.asarray(b(ss), float), P, 1e-7 * sc, tag=tag + " assigned attitude")
        b = crv.ArcCurve(radius=r, angle=ang, center=ctr.copy(), yaw=b.yaw, pitch=b.pitch, roll=b.roll)
        mon.near("arc_constructor", np.asarray(b(ss), float), P, 1e-7 * sc, tag=tag + " angles of the assigned attitude")
        b = crv.ArcCurve(radius=r, angle=ang, center=ctr.copy(), yaw=a.yaw, pitch=a.pitch, roll=a.roll)
        mon.near("arc_constructor", np.asarray(b(ss), float), P, 1e-7 * sc, tag=tag + " attitude")

    # two points and a curvature: the sign selects the side of the chord on which the centre lies
    r = max(abs(1 / k), d / 2)
    h = math.sqrt(max(r * r - d * d / 4, 0.0)) * math.copysign(1, k)
    ctr = (p0 + p1) / 2 - np.cross(dp, nz) * h
    if r > d / 2 * 1.0001:
        a = crv.ArcCurve.from_2_point_curvature(p0=p0.copy(), p1=p1.copy(), curvature=k, axis=ax.copy(), active=c["act"])
        sw = 2 * math.asin(d / 2 / r)
        circle(a, ctr, r, nz * math.copysign(1, k), sw, "curvature")
        mon.near("arc_side", [np.asarray(a(0.0), float), np.asarray(a(1.0), float)], [p0, p1], 1e-7 * (1 + r))
    # two points and the centre, with whole turns added
        b = crv.ArcCurve.from_2_point_center(p0=p0.copy(), p1=p1.copy(), center=ctr.copy(), revolutions=n, active=c["act"])
        circle(b, ctr, r, nz * math.copysign(1, k), sw + 2 * PI * n, "center")
        mon.near("arc_turns", float(b.revolutions), n, 1e-9)
    e = crv.ArcCurve.from_point_center_angle(p0=p0.copy(), center=p1.copy(), angle=c["a"], axis=ax * 2.5, active=c["act"])
    x = unit(p0 - p1)
    circle(e, p1, d, unit(ax - (ax @ x) * x), c["a"], "angle")
    mon.near("arc_turns", float(e.revolutions), math.floor(c["a"] / (2 * PI)), 1e-9)
    f = crv.ArcCurve.from_radius_center_angle(radius=r, center=p1.copy(), angle_start=0.3, angle_end=0.3 + c["a"], active=c["act"])
    circle(f, p1, r, np.array([0, 0, 1.0]), c["a"], "radius")
    mon.near("arc_constructor", np.asarray(f(0.0), float) - p1, r * np.array([math.cos(0.3), math.sin(0.3), 0]), 1e-9 * (1 + r))


def run(c, mon):
    if "arcs" in c:
        return arcs(c["arcs"], mon)
    import gggears.curve as crv
    cs = [cg.build(d)[0] for d in c["curves"]]
    if c["src"] == "chain":
        # make the members meet, so that the chain is one continuous curve
        out = [cs[0]]
        for x in cs[1:]:
            off = np.asarray(out[-1](1.0), float) - np.asarray(x(0.0), float)
            out.append(crv.TransformedCurve(lambda p, o=off: p + o, x))
        cur = crv.CurveChain(*out)
        mon.cover("chain")
    else:
        cur = cs[0]
    if c["rev"]:
        cur.reverse()
        mon.cover("reversed")
    if c["trim"]:
        cur.set_start_and_end_on(*c["trim"])
        mon.cover("trimmed", *(["trimmed_shape"] if c["shape"] else []))
    root_state = state([cur], crv)
    src0 = cur
    for d in c["wraps"]:
        if d["w"] in WRAPS[-2:] and not hasattr(cur, "transform"):
            continue
        before = state([cur], crv)
        new, f = derive(crv, cur, d, mon)
        mon.cover("wrap:" + d["w"])
        mon.true("new_object", new is not cur)
        if d["w"] not in ("add", "sub"):
            # a switched-off curve stays switched off
            off = cur.copy()
            off.active = False
            mon.true("active_kept", not derive(crv, off, d, mon)[0].active and bool(new.active), w=d["w"])
        S = np.linspace(0, 1, 1501)
        src = np.asarray(cur(S), float)
        ref = f(src, S) if d["w"] in ("add", "sub") else f(src, None)
        L = np.linalg.norm(np.diff(ref, axis=0), axis=1).sum()
        sc = 1 + np.abs(ref).max()
        if L < 1e-3 or (d["w"] in ("add", "sub") and np.linalg.norm(np.diff(ref, axis=0), axis=1).min() < 0.05 * L / 1500):
            raise Skip("sum of the two curves has a near-cusp")
        step = np.linalg.norm(np.diff(ref, axis=0), axis=1).max()
        sag = np.linalg.norm(ref[:-2] - 2 * ref[1:-1] + ref[2:], axis=1).max() / 4
        tt = np.linspace(0, 1, 101)
        P = np.asarray(new(tt), float)
        mon.true("shape_of_output", P.shape == (101, 3), shape=list(P.shape))
        mon.near("array_vs_single", [np.asarray(new(float(x)), float) for x in tt[::20]], P[::20], 1e-12 * sc, w=d["w"])
        # every point on the image of the source (exact up to the sagitta of the dense reference)
        dist = dist_to_polyline(P, ref)
        mon.le("on_image", dist, 1e-9 * sc + step * 0.02 + sag * 2, w=d["w"])
        mon.near("ends", P[[0, -1]], ref[[0, -1]], 1e-9 * sc, w=d["w"])
        cum = np.concatenate([[0], np.cumsum(np.linalg.norm(np.diff(ref, axis=0), axis=1))]) / L
        # proportional position (piecewise-linear length table of 20 chords)
        at = np.stack([np.interp(tt, cum, ref[:, j]) for j in range(3)], axis=1)
        L20 = np.linalg.norm(np.diff(ref[::75], axis=0), axis=1).sum()      # the documented 20-chord approximation
        mon.le("proportional", np.linalg.norm(P - at, axis=1), 0.03 * L + 1.5 * (L - L20) + 1e-9, w=d["w"])
        mon.near("length", float(new.length), L, 0.001 * L + 1.5 * (L - L20), w=d["w"])
        if d["w"] in WRAPS[-2:]:
            mon.true("kind_kept", type(new) is type(cur), a=type(new).__name__)
            W = f(np.asarray(cur(tt), float), None)
            mon.near("shape_pointwise", P, W, 1e-8 * sc, w=d["w"])
            mon.near("length", float(new.length), float(cur.length) * abs(d["k"]), 1e-8 * sc)
            if isinstance(new, crv.ArcCurve):
                mon.near("arc_radius", float(new.radius), float(cur.radius) * abs(d["k"]), 1e-9 * sc)
                mon.near("arc_radius", np.linalg.norm(P - np.asarray(new.center, float), axis=1), float(new.radius), 1e-8 * sc)
                mon.near("arc_center", np.asarray(new.center, float), f(np.asarray(cur.center, float)[None], None)[0], 1e-9 * sc)
                mon.near("arc_axis", (P - np.asarray(new.center, float)) @ np.asarray(new.axis, float), 0.0, 1e-8 * sc)
                mon.near("arc_angle", abs(float(new.angle) * (new.t_1 - new.t_0)), abs(float(cur.angle) * (cur.t_1 - cur.t_0)), 1e-9)
                # right-handed about the reported axis
                x0, x1 = P[0] - new.center, P[1] - new.center
                mon.le("arc_axis", 0.0, float(np.sign(new.angle) * np.dot(np.cross(x0, x1), np.asarray(new.axis, float))), w="sense")
        mon.near("source_untouched", state([cur], crv), before, 0.0, w=d["w"])
        cur = new
    if cur is src0:
        return
    # copies
    ref = np.asarray(cur(np.linspace(0, 1, 23)), float)
    cp = cur.copy()
    mon.near("copy_equal", np.asarray(cp(np.linspace(0, 1, 23)), float), ref, 0.0)
    cp2 = cur.copy()
    cp2.set_start_and_end_on(0.2, 0.8)
    cp2.reverse()
    tgt = getattr(cp2, "target_curve", None)
    if tgt is not None:
        tgt.reverse()
    mon.near("copy_does_not_write_back", np.asarray(cur(np.linspace(0, 1, 23)), float), ref, 0.0)
    mon.near("source_untouched", state([src0], crv), root_state, 0.0)
    if c["then"] == "reverse":
        cur.reverse()
        mon.near("derived_reverse", np.asarray(cur(np.linspace(0, 1, 23)), float), ref[::-1], 1e-8 * (1 + np.abs(ref).max()))
        mon.near("source_untouched", state([src0], crv), root_state, 0.0)
    elif c["then"] == "trim":
        pa, pb = np.asarray(cur(c["s"][0] * 0.4), float), np.asarray(cur(0.6 + c["s"][1] * 0.4), float)
        cur.set_start_and_end_on(c["s"][0] * 0.4, 0.6 + c["s"][1] * 0.4)
        mon.near("derived_trim", [np.asarray(cur(0.0), float), np.asarray(cur(1.0), float)], [pa, pb], 1e-8 * (1 + np.abs(ref).max()))
        mon.near("source_untouched", state([src0], crv), root_state, 0.0)
    # whatever happens to source and original afterwards must not reach the copy
    src0.set_start_and_end_on(0.1, 0.6)
    src0.reverse()
    if hasattr(src0, "p0") and isinstance(src0, crv.LineCurve):
        src0.p1 += 3.0
        src0.update_lengths()
    if isinstance(src0, crv.ArcCurve):
        src0.radius = 77.0
        src0.center = np.array([50.0, 0, 0])
    mon.near("copy_independent_of_source", np.asarray(cp(np.linspace(0, 1, 23)), float), ref, 0.0)
