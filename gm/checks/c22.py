"""Curve parametrization: random sequences of reversals, trims, cuts and extensions on every curve kind, replayed on an independent description of
the geometry (own formulas and dense arc-length quadrature)."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from .. import curvegen as cg

PROP = "C22"
TECHNIQUE = "runtime monitoring: curve operations replayed on an independent arc-length model"
RULE = "Case = one curve and a sequence of trim/reverse/cut/extend operations. Non-trivial = length, positions and both conversions were compared after every operation."
COUNT = {"quick": 600, "thorough": 12000}
KINDS = cg.SIMPLE
REQUIRED = ["length", "proportional", "on_geometry", "start_end", "roundtrip_s", "roundtrip_t", "array_vs_single", "derivative", "one_sided_derivative", "second_derivative", "keeps_point", "cut_pieces", "closed", "op:reverse", "op:start", "op:end", "op:both", "op:cut", "op:extend",
            "source_untouched", "twice_reversed", "corner_derivative", "derivative_order"] + KINDS


def draw(r, i, tier):
    if i % 12 == 11:
        n = r.randint(2, 4)
        return dict(corner=[[round(r.uniform(-5, 5), 3) for _ in range(3)] for _ in range(n + 1)], order=dict(r=round(r.uniform(0.5, 4), 3), angle=round(r.choice([-1, 1]) * r.uniform(0.3, 4), 3), c=[1, -2, .5], rot=[round(r.random(), 3) for _ in range(3)]), s=[round(r.uniform(0.2, 0.8), 3)])
    ops = []
    for _ in range(r.randint(2, 5)):
        o = r.choice(["reverse", "start", "end", "both", "cut", "extend"])
        u = sorted([round(r.uniform(0.05, 0.95), 3), round(r.uniform(0.05, 0.95), 3)])
        if u[1] - u[0] < 0.15:
            u = [0.2, 0.7]
        ops.append([o, u[0], u[1], r.choice([-1, 1])])
    return dict(curve=cg.draw(r, KINDS[i % len(KINDS)]), ops=ops, s=[round(r.random(), 4) for _ in range(4)])


def corpus(tier):
    out = []
    import random
    for k in KINDS:
        c = draw(random.Random("c22" + k), KINDS.index(k), tier)
        for ops in ([], [["reverse", 0, 0, 1]], [["reverse", 0, 0, 1], ["reverse", 0, 0, 1]], [["reverse", 0, 0, 1], ["start", 0.3, 0, 1], ["end", 0, 0.6, 1]], [["both", 0.2, 0.8, 1], ["cut", 0.4, 0, 1], ["reverse", 0, 0, 1]],
                    [["extend", 0, 0, -1], ["reverse", 0, 0, 1], ["cut", 0.7, 0, -1]]):
            out.append(dict(c, ops=ops))
    # full circles and half circles, closed curves
    for a in (2 * PI, PI, -2 * PI, 0.001):
        out.append(dict(curve=dict(kind="arc", r=2.0, angle=a, c=[1, 2, 3], rot=[.2, .4, .9], how=1), ops=[["reverse", 0, 0, 1]], s=[0.1, 0.5, 0.77, 0.3]))
    return out


def pts(cv, s):
    return np.array([np.asarray(cv(float(x)), float) for x in s])


def corners(c, mon):
    """one-sided derivatives where they differ, and the derivatives of every order where they are known"""
    import gggears.curve as crv
    P = np.array(c["corner"], float)
    e = np.diff(P, axis=0)
    l = np.linalg.norm(e, axis=1)
    if l.min() < 0.3:
        raise Skip("degenerate polyline")
    ch = crv.CurveChain(*[crv.LineCurve(P[k], P[k + 1]) for k in range(len(P) - 1)])
    L, por = l.sum(), np.cumsum(l) / l.sum()
    for k in range(len(e) - 1):
        f, b = e[k + 1] / l[k + 1] * L, e[k] / l[k] * L
        for d in (1e-3, 1e-5):
            got = [np.asarray(ch.derivative(float(por[k]), direction=q, delta=d), float) for q in (1, -1, 0)]
            mon.near("corner_derivative", got, [f, b, (f + b) / 2], 1e-6 * L, k=k)
    o = c["order"]
    cv, f, *_ = cg.build(dict(kind="arc", how=1, **o))
    s, a = c["s"][0], o["angle"]
    C = np.array(o["c"], float)
    u = np.asarray(cv(s), float) - C
    v = np.asarray(cv.derivative(s, delta=1e-4), float) / a
    want = [v * a, -u * a ** 2, -v * a ** 3]
    for n in (1, 2, 3):
        h = 2e-3
        sc = o["r"] * abs(a) ** n
        mon.near("derivative_order", np.asarray(cv.derivative(s, n=n, delta=h), float), want[n - 1], sc * (3e-5 * a * a * n + 1e-6) + 1e-5, n=n)
        for q in (1, -1):
            mon.near("derivative_order", np.asarray(cv.derivative(s, direction=q, n=n, delta=h), float), want[n - 1], sc * abs(a) * h * n * 0.9 + 1e-5, n=n, q=q)


def run(c, mon):
    if "corner" in c:
        return corners(c, mon)
    cv, f, t0, t1 = cg.build(c["curve"])
    k = c["curve"]["kind"]
    mon.cover(k)
    ds = np.array([0.0, 0.02, *c["s"], 0.97, 1.0])
    exact = k in ("line", "arc")

    def check(tag):
        a, b = float(cv.t_0), float(cv.t_1)
        L, tt, frac = cg.true_length(f, a, b)
        sc = max(L, 1e-9)
        mon.near("length", float(cv.length) / sc, 1.0, 1e-4 if exact else 6e-3, tag=tag, kind=k)
        P = pts(cv, ds)
        # on the geometry, at the native parameter it claims
        T = np.array([float(cv.s2t(float(x))) for x in ds])
        mon.near("on_geometry", P, np.array([f(t) for t in T]), 1e-9 * (1 + np.abs(P).max()), tag=tag, kind=k)
        mon.le("within_range", np.maximum(min(a, b) - T, T - max(a, b)), 1e-9, tag=tag, kind=k)
        up = np.interp(T, tt, frac) if b > a else np.interp(-T, -tt, frac)
        mon.near("proportional", up, ds, 1e-6 if exact else 3e-2, tag=tag, kind=k)
        mon.near("start_end", [P[0], P[-1]], [f(a), f(b)], 1e-9 * (1 + np.abs(P).max()), tag=tag, kind=k)
        mon.near("roundtrip_s", [float(cv.t2s(float(t))) for t in T], ds, 1e-9, tag=tag, kind=k)
        nt = a + (b - a) * np.array([0.0, 0.13, 0.5, 0.77, 1.0])
        mon.near("roundtrip_t", [float(cv.s2t(float(cv.t2s(float(t))))) for t in nt], nt, 1e-9 * (1 + abs(a) + abs(b)), tag=tag, kind=k)
        A = np.asarray(cv(ds.copy()), float)
        mon.near("array_vs_single", A, P, 1e-10 * (1 + np.abs(P).max()), tag=tag, kind=k)
        mon.near("array_conversion", np.asarray(cv.s2t(ds.copy()), float), T, 1e-10 * (1 + abs(a) + abs(b)), tag=tag, kind=k)
        mon.near("array_conversion", np.asarray(cv.t2s(nt.copy()), float), [float(cv.t2s(float(t))) for t in nt], 1e-10, tag=tag, kind=k)
        # beyond the ends as well
        ext = np.array([-0.1, 0.5, 1.1])
        mon.near("array_vs_single", np.asarray(cv(ext.copy()), float), pts(cv, ext), 1e-10 * (1 + np.abs(P).max()), tag=tag, kind=k)
        for s in c["s"][:2]:
            # stay clear of the joints of the length lookup
            s = (math.floor(s * 20) + 0.3 + 0.4 * (s * 20 % 1)) / 20
            h = 2e-5
            fwd, ctr, bwd = (pts(cv, [s + h])[0] - pts(cv, [s])[0]) / h, (pts(cv, [s + h])[0] - pts(cv, [s - h])[0]) / 2 / h, (pts(cv, [s])[0] - pts(cv, [s - h])[0]) / h
            tol = 3e-3 * sc
            if np.abs(fwd - bwd).max() > 1e-3 * sc:
                continue        # at a kink of the piecewise-linear length table
            mon.near("derivative", np.asarray(cv.derivative(s), float), ctr, tol, tag=tag, kind=k, s=s)
            mon.near("one_sided_derivative", [np.asarray(cv.derivative(s, direction=1), float), np.asarray(cv.derivative(s, direction=-1), float)], [fwd, bwd], tol, tag=tag, kind=k, s=s)
            hh = 1e-3
            sec = (pts(cv, [s + 2 * hh])[0] - 2 * pts(cv, [s])[0] + pts(cv, [s - 2 * hh])[0]) / 4 / hh / hh
            mon.near("second_derivative", np.asarray(cv.derivative(s, n=2, delta=hh), float), sec, 1e-4 * sc + 1e-3 * np.abs(sec).max(), tag=tag, kind=k)
        gap = np.linalg.norm(f(a) - f(b))
        if gap > 1e-3 or gap < 1e-9:
            mon.true("closed", bool(cv.is_closed) == (gap < 1e-9), tag=tag, kind=k)

    check("fresh")
    for op, u, v, sg in c["ops"]:
        before = pts(cv, [0.0, u, v, 1.0])
        sc = 1 + np.abs(before).max()
        if op == "reverse":
            Q = pts(cv, [0.0, 0.3, 1.0])
            cv.reverse()
            if k == "bezier":
                g0 = f
                f = lambda t, g0=g0: g0(1 - t)
            mon.near("keeps_point", pts(cv, [1.0, 0.0]), Q[[0, 2]], 1e-9 * sc, op=op, kind=k)
            mon.near("mirrored_parameter", pts(cv, [0.7])[0], Q[1], 1e-9 * sc if k != "bezier" else 1e-2 * sc, kind=k)
            w = cv.copy()
            w.reverse()
            w.reverse()
            mon.near("twice_reversed", pts(w, ds), pts(cv, ds), 1e-9 * sc, kind=k)
        elif op == "start":
            cv.set_start_on(u)
            mon.near("keeps_point", pts(cv, [0.0, 1.0]), before[[1, 3]], 1e-9 * sc, op=op, kind=k)
        elif op == "end":
            cv.set_end_on(v)
            mon.near("keeps_point", pts(cv, [0.0, 1.0]), before[[0, 2]], 1e-9 * sc, op=op, kind=k)
        elif op == "both":
            cv.set_start_and_end_on(u, v)
            mon.near("keeps_point", pts(cv, [0.0, 1.0]), before[[1, 2]], 1e-9 * sc, op=op, kind=k)
        elif op == "extend":
            if k in ("spherical_involute", "octoid", "cycloid_cone", "cycloid"):
                e = 0.03
            else:
                e = 0.1
            if k not in ("line", "arc", "bezier") and (min(float(cv.t_0), float(cv.t_1)) < 0.12):
                continue        # would run through the cusp
            q = pts(cv, [-e, 1 + e])
            if sg < 0:
                cv.set_start_on(-e)
                mon.near("keeps_point", pts(cv, [0.0, 1.0]), [q[0], before[3]], 1e-9 * sc, op=op, kind=k)
            else:
                cv.set_end_on(1 + e)
                mon.near("keeps_point", pts(cv, [0.0, 1.0]), [before[0], q[1]], 1e-9 * sc, op=op, kind=k)
        elif op == "cut":
            L0 = float(cv.length)
            a, b = cv.cut(u)
            mon.near("source_untouched", pts(cv, [0.0, u, v, 1.0]), before, 0.0, kind=k)
            mon.near("cut_pieces", [pts(a, [0])[0], pts(a, [1])[0], pts(b, [0])[0], pts(b, [1])[0]], [before[0], before[1], before[1], before[3]], 1e-9 * sc, kind=k)
            mon.near("cut_pieces", [float(a.length) / L0, float(b.length) / L0], [u, 1 - u], 2e-2 if not exact else 1e-9, kind=k)
            cv = a if sg > 0 else b
        mon._ev("op:" + op)
        check(op)
