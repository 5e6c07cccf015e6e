"""Random library curves together with an independent description of the geometry they must have.

A spec is JSON-able; build(spec) -> (curve, f, t0, t1): f(t) is the own formula of the point at native parameter t."""
import math
import numpy as np
from .geom import *

SIMPLE = ["line", "arc", "involute", "cycloid", "bezier", "spherical_involute", "octoid", "cycloid_cone"]


def draw(r, kind=None, gentle=True):
    k = kind or r.choice(SIMPLE)
    v = lambda s=5: [round(r.uniform(-s, s), 3) for _ in range(3)]
    d = dict(kind=k)
    if k == "line":
        d.update(p0=v(), p1=v())
    elif k == "arc":
        d.update(r=round(10 ** r.uniform(-1, 1.3), 3), angle=round(r.choice([-1, 1, 1]) * r.uniform(0.05, 6.2), 3), c=v(), rot=[r.random(), r.random(), r.random()], how=r.randrange(2))
    elif k in ("involute", "spherical_involute", "octoid"):
        t0 = round(r.choice([0.0, r.uniform(0.1, 0.5)]), 3)
        d.update(r=round(10 ** r.uniform(-0.5, 1), 3), t0=t0 if k != "octoid" else max(t0, 0.15), t1=round(max(t0, 0.15) + r.uniform(0.2, 0.8), 3), angle=round(r.uniform(-3, 3), 3), ratio=round(r.uniform(0.2, 0.9), 3))
    elif k in ("cycloid", "cycloid_cone"):
        d.update(r=round(10 ** r.uniform(-0.5, 1), 3), cr=round(r.choice([-1, 1]) * r.uniform(0.15, 0.5), 3), t0=round(r.choice([0.0, r.uniform(0.02, 0.1)]), 3), t1=round(r.uniform(0.25, 0.45), 3), angle=round(r.uniform(-3, 3), 3), ratio=round(r.uniform(0.2, 0.8), 3))
    elif k == "bezier":
        n = r.choice([3, 4])
        p0, p1 = np.array(v()), np.array(v())
        # control points near an even spread keep the parameter speed tame
        sp = np.linalg.norm(p1 - p0)
        pts = [(p0 + (p1 - p0) * j / (n - 1) + (np.array([r.uniform(-.25, .25) for _ in range(3)]) * sp if 0 < j < n - 1 else 0)).round(4).tolist() for j in range(n)]
        d.update(points=pts, weights=[round(r.uniform(0.7, 1.4), 3) for _ in range(n)])
    return d


def bern(P, W, t):
    P, W = np.asarray(P, float), np.asarray(W, float)
    n = len(P) - 1
    b = np.array([math.comb(n, i) * t ** i * (1 - t) ** (n - i) for i in range(n + 1)]) * W
    return b @ P / b.sum()


def build(d):
    import gggears.curve as crv
    k = d["kind"]
    if k == "line":
        p0, p1 = np.array(d["p0"], float), np.array(d["p1"], float)
        return crv.LineCurve(p0=p0, p1=p1), lambda t: p0 + (p1 - p0) * t, 0.0, 1.0
    if k == "arc":
        R, c, rad, A = rand_rot(d["rot"]), np.array(d["c"], float), d["r"], d["angle"]
        f = lambda t: c + R @ (rad * np.array([math.cos(A * t), math.sin(A * t), 0.0]))
        if d["how"] == 0 and 0 < abs(A):
            cv = crv.ArcCurve.from_point_center_angle(p0=f(0), center=c.copy(), angle=A, axis=R[:, 2].copy())
        else:
            cv = crv.ArcCurve(radius=rad, angle=A, center=c.copy())
            cv.rotmat = R
            cv.update_lengths()
        return cv, f, 0.0, 1.0
    if k == "involute":
        r, a = d["r"], d["angle"]
        f = lambda t: r * np.array([math.cos(t + a) + t * math.sin(t + a), math.sin(t + a) - t * math.cos(t + a), 0.0])
        return crv.InvoluteCurve(r=r, t0=d["t0"], t1=d["t1"], angle=a), f, d["t0"], d["t1"]
    if k == "spherical_involute":
        r, a = d["r"], d["angle"]
        R = r / d["ratio"]
        cv = crv.SphericalInvoluteCurve(r=r, t0=d["t0"], t1=d["t1"], angle=a, c_sphere=1 / R)
        ap = np.array([0, 0, math.sqrt(R * R - r * r)])

        def f(t):
            q = np.array([r * math.cos(t + a), r * math.sin(t + a), 0]) - ap
            T = np.array([-math.sin(t + a), math.cos(t + a), 0])
            ph = r * t / R
            return ap + q * math.cos(ph) - R * T * math.sin(ph)
        return cv, f, d["t0"], d["t1"]
    if k == "octoid":
        import gggears.function_generators as fg
        r, a = d["r"], d["angle"]
        R = r / d["ratio"]
        cv = crv.OctoidCurve(r=r, t0=d["t0"], t1=d["t1"], angle=a, c_sphere=1 / R)
        f = lambda t: np.asarray(cv.function(float(t)), float)      # own rolling law of this one is the subject of C30
        return cv, f, d["t0"], d["t1"]
    if k == "cycloid":
        rb, rc, a = d["r"], d["cr"] * d["r"], d["angle"]

        def f(t):
            # roll angle t about the base circle: pole at rb, rolling circle centre at rb+rc, point turned by t*rb/rc relative
            ctr = (rb + rc) * np.array([math.cos(t + a), math.sin(t + a), 0])
            w = t + a + t * rb / rc
            return ctr - rc * np.array([math.cos(w), math.sin(w), 0])
        return crv.CycloidCurve(rb=rb, rc=rc, t0=d["t0"], t1=d["t1"], angle=a), f, d["t0"], d["t1"]
    if k == "cycloid_cone":
        rb, rc, a = d["r"], d["cr"] * d["r"], d["angle"]
        R = rb / d["ratio"]
        cv = crv.CycloidConicCurve(rb=rb, rc=rc, C=1 / R, t0=d["t0"], t1=d["t1"], angle=a)
        f = lambda t: np.asarray(cv.function(float(t)), float)
        return cv, f, d["t0"], d["t1"]
    if k == "bezier":
        P, W = np.array(d["points"], float), np.array(d["weights"], float)
        return crv.NurbCurve(P.copy(), W.copy()), lambda t: bern(P, W, t), 0.0, 1.0
    raise KeyError(k)


def true_length(f, t0, t1, n=400):
    """composite Gauss-free: dense chords with Richardson extrapolation; returns (length, cumulative fraction function)"""
    t = np.linspace(t0, t1, n + 1)
    P = np.array([f(x) for x in t])
    d = np.linalg.norm(np.diff(P, axis=0), axis=1)
    c = np.concatenate([[0], np.cumsum(d)])
    L2 = np.linalg.norm(np.diff(P[::2], axis=0), axis=1).sum()
    L = c[-1] + (c[-1] - L2) / 3
    return L, t, c / c[-1] if c[-1] > 0 else c
