"""Curve searches: random pairs of curves with a planted solution (common point, nearest point, line/plane crossing, tangent arc) are handed to the real search
routines from starts near and less near; whatever is returned as solved is checked against the defining condition with the curves' own formulas."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from .. import curvegen as cg

PROP = "C29"
TECHNIQUE = "runtime monitoring: planted-solution workloads for the search routines with an oracle on the defining condition of each returned solution"
RULE = "Case = curves with a known solution and a start guess. Non-trivial = the search returned and its answer was checked against the defining condition."
COUNT = {"quick": 400, "thorough": 12000}
KIND = ["intersect", "intersect_min", "plane", "plane_min", "line", "nearest", "tangent_arc", "fillet_chain", "winding"]
REQUIRED = ["common_point", "found_planted", "success_truthful", "on_plane", "on_line", "nearest_is_smallest", "arc_on_curves", "arc_radius", "arc_tangent", "arc_planted", "curves_untouched", "winding_inside", "winding_outside", "winding_array", "no_false_success", "skew_not_common", "best_of_guesses", "closest_approach"] + ["kind:" + k for k in KIND]
DOMAIN_KINDS = ["line", "arc", "involute", "cycloid", "bezier"]


def draw(r, i, tier):
    k = KIND[i % len(KIND)]
    return dict(kind=k, a=cg.draw(r, r.choice(DOMAIN_KINDS)), b=cg.draw(r, r.choice(DOMAIN_KINDS)), sa=round(r.uniform(0.2, 0.8), 4), sb=round(r.uniform(0.2, 0.8), 4), g=[round(r.uniform(-0.1, 0.1), 4), round(r.uniform(-0.1, 0.1), 4)],
                rot=[r.random(), r.random(), r.random()], ang=round(r.uniform(0.4, 2.4), 3), turn=r.choice([-1, 1]), u=round(r.uniform(0.05, 0.4), 3), h=round(10 ** r.uniform(-2, 0), 4), far=r.random() < 0.2, seed=r.randrange(10 ** 9))


def corpus(tier):
    import random
    return [draw(random.Random(f"c29{k}{j}"), k, tier) for k in range(len(KIND)) for j in range(3)]


def tangent(cv, s, h=1e-6):
    return unit(np.asarray(cv(s + h), float) - np.asarray(cv(s - h), float))


def state(*cs):
    return np.concatenate([np.concatenate([np.asarray(x(np.linspace(0, 1, 7)), float).ravel(), [float(x.length)]]) for x in cs])


def dense(cv, n=4000):
    return np.asarray(cv(np.linspace(0, 1, n + 1)), float)


def run(c, mon):
    import gggears.curve as crv
    k = c["kind"]
    mon.cover("kind:" + k)
    a = cg.build(c["a"])[0]
    La = float(a.length)
    if La < 0.05:
        raise Skip("tiny curve")
    sa, sb = c["sa"], c["sb"]
    P = np.asarray(a(sa), float)
    ta = tangent(a, sa)
    R = rand_rot(c["rot"])
    if k in ("intersect", "intersect_min"):
        b0 = cg.build(c["b"])[0]
        Lb = float(b0.length)
        if Lb < 0.05:
            raise Skip("tiny curve")
        q, tb = np.asarray(b0(sb), float), tangent(b0, sb)
        # place b so that it crosses a at P, at the angle wanted, in a random plane through a's tangent
        n = unit(np.cross(ta, R[:, 0]))
        want = rot_axis(n, c["ang"]) @ ta
        ax = np.cross(tb, want)
        A = rot_axis(unit(ax), math.acos(np.clip(tb @ want, -1, 1))) if np.linalg.norm(ax) > 1e-9 else np.eye(3)
        b = crv.TransformedCurve(lambda p: (p - q) @ A.T + P, b0)
        # where the crossing sits on b's own parameter
        D = dense(b)
        sb2 = np.argmin(np.linalg.norm(D - P, axis=1)) / (len(D) - 1)
        before = state(a, b)
        g = [sa + c["g"][0], sb2 + c["g"][1]]
        res = crv.find_curve_intersect(a, b, guess=g, method=crv.IntersectMethod.EQUALITY if k == "intersect" else crv.IntersectMethod.MINDISTANCE)
        x = np.asarray(res.x, float)
        pa, pb = np.asarray(a(float(x[0])), float), np.asarray(b(float(x[1])), float)
        sc = 1 + np.abs(P).max()
        gap = np.linalg.norm(pa - pb)
        if k == "intersect":
            if res.success:
                mon.le("success_truthful", gap, 1e-6 * sc, g=g)
            if max(abs(c["g"][0]), abs(c["g"][1])) < 0.03 and gap < 1e-6 * sc:
                mon.le("common_point", gap, 1e-6 * sc)
            # a start at the solution must succeed
            res = crv.find_curve_intersect(a, b, guess=[sa + 1e-3, sb2 + 1e-3])
            x = np.asarray(res.x, float)
            mon.le("common_point", np.linalg.norm(np.asarray(a(float(x[0])), float) - np.asarray(b(float(x[1])), float)), 1e-6 * sc)
            mon.le("found_planted", np.linalg.norm(np.asarray(a(float(x[0])), float) - P), 1e-5 * sc + 0.02 * La)
        else:
            # never farther apart than the start, and close for starts near by
            g0 = np.linalg.norm(np.asarray(a(g[0]), float) - np.asarray(b(g[1]), float))
            mon.le("common_point", gap, g0 + 1e-9)
            if max(abs(c["g"][0]), abs(c["g"][1])) < 0.03:
                mon.le("common_point", gap, 2e-3 * (La + Lb))
        mon.near("curves_untouched", state(a, b), before, 0.0)
        # two curves that never meet: success must not be claimed
        if k == "intersect":
            n2 = unit(np.cross(ta, [0.3, 0.5, 0.9]))
            off = crv.TransformedCurve(lambda p: (p - q) @ A.T + P + 1000.0 * n2, b0)
            r2 = crv.find_curve_intersect(a, off, guess=[0.5, 0.5])
            y = np.asarray(r2.x, float)
            far = np.linalg.norm(np.asarray(a(float(y[0])), float) - np.asarray(off(float(y[1])), float))
            mon.true("no_false_success", (not r2.success) or far < 1e-5 * 1000, gap=far)
            # skew: the projections onto a coordinate plane cross, the curves do not
            for ax in range(3):
                e = np.zeros(3)
                e[ax] = 0.2 * min(La, Lb) * c["turn"]
                skew = crv.TransformedCurve(lambda p: (p - q) @ A.T + P + e, b0)
                D1, D2 = dense(a, 300), dense(skew, 300)
                sep = np.min(np.linalg.norm(D1[:, None] - D2[None], axis=2))
                r2 = crv.find_curve_intersect(a, skew, guess=[sa + 1e-3, sb2 + 1e-3])
                y = np.asarray(r2.x, float)
                gp = np.linalg.norm(np.asarray(a(float(y[0])), float) - np.asarray(skew(float(y[1])), float))
                i1, i2 = np.unravel_index(np.argmin(np.linalg.norm(D1[:, None] - D2[None], axis=2)), (301, 301))
                if 10 < i1 < 290 and 10 < i2 < 290:
                    r3 = np.asarray(crv.find_curve_intersect(a, skew, guess=[i1 / 300 + 0.01, i2 / 300 - 0.01], method=crv.IntersectMethod.MINDISTANCE).x, float)
                    mon.le("closest_approach", np.linalg.norm(np.asarray(a(float(r3[0])), float) - np.asarray(skew(float(r3[1])), float)), sep + 1e-3 * (La + Lb), ax=ax)
                mon.true("skew_not_common", (not r2.success) or gp < 1e-6 * sc, gap=gp, sep=sep, ax=ax)
    elif k in ("plane", "plane_min"):
        n = unit(R[:, 0] + (2.0 if R[:, 0] @ ta > 0 else -2.0) * ta)
        off = P + np.cross(n, R[:, 1])
        before = state(a)
        res = crv.find_curve_plane_intersect(a, plane_normal=n, offset=off, guess=sa + c["g"][0] * 0.5, **({} if k == "plane" else dict(method=crv.IntersectMethod.MINDISTANCE)))
        s = float(np.atleast_1d(res.x)[0])
        d = abs(float((np.asarray(a(s), float) - off) @ n))
        sc = 1 + np.abs(P).max()
        if k == "plane":
            if res.success:
                mon.le("success_truthful", d, 1e-6 * sc)
            res = crv.find_curve_plane_intersect(a, plane_normal=n, offset=off, guess=sa + 1e-3)
            s = float(np.atleast_1d(res.x)[0])
            mon.le("on_plane", abs(float((np.asarray(a(s), float) - off) @ n)), 1e-6 * sc)
            mon.near("found_planted", s, sa, 0.02 + 1e-6)
        else:
            mon.le("on_plane", d, 5e-3 * La + 1e-6)
        mon.near("curves_untouched", state(a), before, 0.0)
        far = crv.find_curve_plane_intersect(crv.ArcCurve(radius=1.0, angle=3.0), plane_normal=np.array([0, 0, 1.0]), offset=np.array([0, 0, 5.0]), guess=0.4)
        mon.true("no_false_success", not far.success)
    elif k == "line":
        # line through the point, in the plane of a planar curve
        if c["a"]["kind"] not in ("arc", "involute", "cycloid", "line"):
            raise Skip("spatial curve and line do not cross in general")
        D = dense(a, 200)
        nn = np.cross(D[60] - D[0], D[140] - D[0])
        n = unit(nn) if np.linalg.norm(nn) > 1e-6 * La * La else unit(np.cross(ta, R[:, 0]))
        dirn = rot_axis(n, c["ang"]) @ ta
        before = state(a)
        res = crv.find_curve_line_intersect(a, offset=P + 1.3 * dirn, line_direction=dirn, guess=sa + 1e-3)
        s = float(np.atleast_1d(res.x)[0])
        d = np.linalg.norm(np.cross(np.asarray(a(s), float) - P, dirn))
        # the target is |distance|, with a corner at the solution: the routine reaches it approximately
        if res.success:
            mon.le("success_truthful", d, 1e-5 * (1 + La))
        mon.le("on_line", d, 1e-2 * La)
        # ... and gets there from a start some way off, in a plane of any attitude (upright ones included)
        ex = unit(ta)
        Bm = np.array([[1.0, 0, 0], [0, 0, -1], [0, 1, 0]] if c["turn"] > 0 else [[0, 0, 1.0], [1, 0, 0], [0, 1, 0]]) @ np.vstack([ex, np.cross(n, ex), n])
        up = crv.TransformedCurve(lambda p: (p - P) @ Bm.T + P, a)
        dn = Bm @ dirn
        for cur, dd in ((a, dirn), (up, dn)):
            s = float(np.atleast_1d(crv.find_curve_line_intersect(cur, offset=P + 1.3 * dd, line_direction=dd, guess=sa + 0.04 * c["turn"]).x)[0])
            mon.le("on_line", np.linalg.norm(np.cross(np.asarray(cur(s), float) - P, dd)), 0.4 * np.linalg.norm(np.cross(np.asarray(cur(sa + 0.04 * c["turn"]), float) - P, dd)))
        mon.near("curves_untouched", state(a), before, 0.0)
    elif k == "nearest":
        h = c["h"] * min(La, 3.0) * 0.3
        nrm = unit(np.cross(ta, R[:, 0]))
        pt = P + h * nrm
        D = dense(a)
        d = np.linalg.norm(D - pt, axis=1)
        best = float(d.min())
        arg = int(np.argmin(d)) / (len(D) - 1)
        if not 0.05 < arg < 0.95:
            raise Skip("nearest point at an end")
        before = state(a)
        gs = [arg + c["g"][0]] if not c["far"] else [0.05, arg + c["g"][0], 0.95]
        s = float(crv.find_curve_nearest_point(a, pt, guesses=gs))
        dd = np.linalg.norm(np.asarray(a(s), float) - pt)
        # any of the guesses is a candidate, the result is at least as good as all of them, and the local minimum is reached
        mon.le("nearest_is_smallest", dd, min(np.linalg.norm(np.asarray(a(x), float) - pt) for x in gs) + 1e-9)
        if abs(c["g"][0]) < 0.05:
            mon.le("nearest_is_smallest", dd ** 2, best ** 2 + 1e-4 * La * La)
        mon.near("curves_untouched", state(a), before, 0.0)
        # several valleys of different depth, guesses in each: the deepest counts, in whatever order the guesses come
        rr = np.random.default_rng(c["seed"])
        m = int(rr.integers(2, 5))
        dep = rr.permutation(m) * 0.3 + 0.2
        xs = (np.arange(m) + 0.5) / m
        wig = crv.Curve(lambda t: np.stack(np.broadcast_arrays(np.asarray(t) * 4.0, -np.interp(np.asarray(t), xs, dep) * np.sin(np.pi * m * np.asarray(t)) ** 2, 0 * np.asarray(t)), axis=-1), t0=0, t1=1)
        X = lambda s: np.asarray(wig(float(s)), float)
        Dw = dense(wig, 3000)
        pt = np.array([2.0, -9.0, 0])
        dw = np.linalg.norm(Dw - pt, axis=1)
        gl = [float(np.argmin(np.linalg.norm(Dw - [4 * x, -d_, 0], axis=1)) / 3000) + c["g"][0] * 0.05 for x, d_ in zip(xs, dep)]
        for order in (gl, gl[::-1], list(rr.permutation(gl))):
            s = float(crv.find_curve_nearest_point(wig, pt, guesses=[float(g_) for g_ in order]))
            mon.le("best_of_guesses", np.linalg.norm(X(s) - pt), min(np.linalg.norm(X(g_) - pt) for g_ in gl) + 1e-9, order=[float(g_) for g_ in order])
            mon.le("best_of_guesses", np.linalg.norm(X(s) - pt), float(dw.min()) + 2e-2)
    elif k == "tangent_arc":
        # two straight or circular branches leaving a corner; rho small against both
        L1, L2 = 4.0 + 2 * sa, 4.0 + 2 * sb
        n = R[:, 2]
        t1 = R[:, 0]
        t2 = rot_axis(n, c["turn"] * c["ang"]) @ t1
        Q = np.array([1.0, -2.0, 0.5])
        c1, c2 = crv.LineCurve(Q - L1 * t1, Q.copy()), crv.LineCurve(Q.copy(), Q + L2 * t2)
        rho = c["u"] / math.tan(c["ang"] / 2)
        before = state(c1, c2)
        for m in (crv.IntersectMethod.EQUALITY, crv.IntersectMethod.MINDISTANCE):
            arc, s1, s2, sol = crv.calc_tangent_arc(c1, c2, rho, start_locations=[1, 0], method=m)
            tol = 1e-6 if m == crv.IntersectMethod.EQUALITY else 2e-3
            p1, p2 = np.asarray(c1(float(s1)), float), np.asarray(c2(float(s2)), float)
            mon.near("arc_on_curves", [np.asarray(arc(0.0), float), np.asarray(arc(1.0), float)], [p1, p2], 1e-7 + tol, m=str(m))
            mon.near("arc_radius", float(arc.radius), rho, tol * (1 + rho), m=str(m))
            # exact tangent points
            mon.near("arc_planted", [p1, p2], [Q - c["u"] * t1, Q + c["u"] * t2], tol * 5, m=str(m))
            A = dense(arc, 1000)
            mon.near("arc_tangent", [unit(A[1] - A[0]), unit(A[-1] - A[-2])], [t1, t2], 2e-3 + 10 * tol, m=str(m))
        for m in (crv.IntersectMethod.EQUALITY, crv.IntersectMethod.MINDISTANCE):
            # starts on the other side of the tangent points
            arc, s1, s2, sol = crv.calc_tangent_arc(c1, c2, rho, start_locations=[max(1 - c["u"] / L1 - 0.2, 0.0), min(c["u"] / L2 + 0.2, 1.0)], method=m)
            mon.near("arc_planted", [np.asarray(c1(float(s1)), float), np.asarray(c2(float(s2)), float)], [Q - c["u"] * t1, Q + c["u"] * t2], 1e-6 if m == crv.IntersectMethod.EQUALITY else 1e-2, m=str(m), start="far")
        mon.near("curves_untouched", state(c1, c2), before, 0.0)
    elif k == "fillet_chain":
        L1 = 3.0 + sa
        n, t1 = R[:, 2], R[:, 0]
        # a straight run that continues into an arc at a corner
        t2 = rot_axis(n, c["turn"] * c["ang"]) @ t1
        Q = np.array([0.5, 1.0, -2.0])
        rad = 6.0 * c["turn"]
        arc2 = crv.ArcCurve.from_point_center_angle(p0=Q.copy(), center=Q + 6.0 * rot_axis(n, c["turn"] * math.pi / 2) @ t2, angle=0.8, axis=n * c["turn"])
        ch = crv.CurveChain(crv.LineCurve(Q - L1 * t1, Q.copy()), arc2)
        rho = min(c["u"] / math.tan(c["ang"] / 2), 1.5)
        before = state(ch)
        arc, s1, s2 = crv.fillet_curve(ch, rho, start_locations=[L1 / float(ch.length) - 0.02, L1 / float(ch.length) + 0.02])
        p1, p2 = np.asarray(ch(float(s1)), float), np.asarray(ch(float(s2)), float)
        mon.near("arc_on_curves", [np.asarray(arc(0.0), float), np.asarray(arc(1.0), float)], [p1, p2], 1e-6)
        mon.near("arc_radius", float(arc.radius), rho, 1e-6 * (1 + rho))
        C = np.asarray(arc.center, float)
        mon.near("arc_tangent", [np.dot(unit(p1 - C), t1), np.dot(unit(p2 - C), tangent(ch, float(s2), 1e-5))], 0.0, 1e-4)
        mon.le("arc_planted", [float(s1), L1 / float(ch.length)], [L1 / float(ch.length), float(s2)])
        mon.near("curves_untouched", state(ch), before, 0.0)
    else:
        rng = np.random.default_rng(c["seed"])
        m = rng.integers(3, 8)
        ph = np.sort(rng.uniform(0, 2 * math.pi, m))
        while np.max(np.diff(np.append(ph, ph[0] + 2 * math.pi))) > 2.6:
            ph = np.sort(rng.uniform(0, 2 * math.pi, m))
        Q = np.stack([np.cos(ph), np.sin(ph), np.zeros(m)], 1) * (1 + 4 * c["h"]) + np.array([3.0, -1, 0])
        ch = crv.CurveChain(*[crv.LineCurve(Q[j], Q[(j + 1) % m]) for j in range(m)])
        if c["turn"] < 0:
            ch.reverse()
        ctr = np.array([3.0, -1, 0])
        inr = np.min([abs(np.cross(Q[(j + 1) % m] - Q[j], ctr - Q[j])[2]) / np.linalg.norm(Q[(j + 1) % m] - Q[j]) for j in range(m)])
        if inr < 0.2:
            raise Skip("centre too close to the outline")
        ins = ctr
        out = ctr + 3.0 * (1 + 4 * c["h"]) * np.array([math.cos(c["ang"]), math.sin(c["ang"]), 0])
        mon.near("winding_inside", float(crv.curve_index(ch, ins)), 1.0, 0.03)
        mon.near("winding_outside", float(crv.curve_index(ch, out)), 0.0, 0.03)
        mon.near("winding_array", np.asarray(crv.curve_index(ch, np.array([ins, out, ins])), float), [1, 0, 1], 0.03)
        mon.true("success_truthful", bool(ch.is_closed))
