"""Bezier and NURBS arithmetic against the Bernstein definition and against calculus. Oracle: own de Casteljau/Bernstein sums in
homogeneous form, finite differences for every derivative, circle equation for rational arcs, distance to the target for refits."""
import math
import numpy as np
from ..geom import *
from .. import gen

PROP = "C26"
TECHNIQUE = "runtime monitoring: Bernstein-definition and finite-difference oracles on Bezier/NURBS evaluations and refits of the real library"
RULE = ("Case = one random control polygon (2..7 points, positive weights over 3 decades) or rational arc, NURBS chain, surface patch or curve refit. "
        "Non-trivial = evaluation compared with the definition at ends, interior and outside parameters.")
COUNT = {"quick": 700, "thorough": 15000}
REQUIRED = ["definition", "rational_definition", "ends", "hull", "affine_invariant", "diff_t", "diff_points", "diff_weights", "rational_diff_t", "second_diff", "arc_on_circle", "arc_side", "quadratic_interp", "surface", "surface_agree",
            "chain_roundtrip", "chain_joint", "chain_points_setter", "chain_reverse", "fit_ends", "fit_close", "coeff_sum", "scalar_vs_array", "input_unchanged", "weight_scale_free", "curve_object", "from_chain", "enforce_continuity", "hermite_ends", "hermite_tangents", "plane_fit_height"]
KIND = ["poly", "arc", "chain", "surface", "fit"]


def draw(r, i, tier):
    k = i % 14
    kind = "poly" if k < 6 else "arc" if k < 8 else "chain" if k < 11 else "surface" if k < 12 else "fit"
    return dict(kind=kind, n=r.randint(2, 7), seed=r.randint(0, 10 ** 9), scale=10 ** r.uniform(-2, 2), wspread=r.choice([0.0, 0.3, 1.5]), pieces=[r.randint(2, 5) for _ in range(r.randint(1, 5))],
                target=r.choice(["involute", "arc", "cycloid", "spiral"]), npt=r.choice([4, 4, 5]))


def corpus(tier):
    return [dict(kind=k, n=n, seed=s, scale=1.0, wspread=0.3, pieces=[4, 3, 2], target="involute", npt=4) for k in KIND for n in (2, 4) for s in (1, 2)]


def bern(t, P, W=None):
    t = np.asarray(t, float)
    n = len(P)
    B = np.stack([math.comb(n - 1, k) * t ** k * (1 - t) ** (n - 1 - k) for k in range(n)], -1)
    if W is None:
        return B @ P
    return (B * W) @ P / ((B * W).sum(-1))[..., None]


def run(c, mon):
    import gggears.function_generators as fg
    import gggears.curve as crv
    rng = np.random.default_rng(c["seed"])
    n, s = c["n"], c["scale"]
    P = rng.normal(size=(n, 3)) * s
    W = np.exp(rng.normal(size=n) * c["wspread"])
    t = np.concatenate([[0.0, 1.0, 0.5], rng.uniform(0, 1, 6), [-0.05, 1.05]])
    P0, W0 = P.copy(), W.copy()
    cond = s * 3.0 ** n
    if c["kind"] == "poly":
        want = bern(t, P)
        mon.near("definition", fg.bezierdc(t, P), want, 1e-13 * cond)
        mon.near("definition", [fg.bezier(float(x), P) for x in t], want, 1e-13 * cond)
        mon.near("definition", fg.bezier_coeff(t, n) @ P, want, 1e-13 * cond)
        mon.near("definition", fg.bezier_diff_p(t, n) @ P, want, 1e-13 * cond)
        mon.near("coeff_sum", fg.bezier_coeff(t, n).sum(-1), 1.0, 1e-12 * 3 ** n)
        wr = bern(t, P, W)
        cw = cond * (W.max() / W.min()) * 4
        got = fg.nurbezier(t, P, W)
        mon.near("rational_definition", got, wr, 1e-12 * cw)
        mon.near("scalar_vs_array", [fg.nurbezier(float(x), P, W) for x in t], wr, 1e-12 * cw)
        mon.near("scalar_vs_array", [fg.bezierdc(float(x), P) for x in t], want, 1e-13 * cond)
        mon.near("weight_scale_free", fg.nurbezier(t, P, W * 7.5), wr, 1e-12 * cw)
        mon.near("ends", fg.nurbezier(np.array([0.0, 1.0]), P, W), P[[0, -1]], 1e-13 * cw)
        inner = np.linspace(0, 1, 21)
        for d in rng.normal(size=(4, 3)):
            v = fg.nurbezier(inner, P, W) @ d
            mon.le("hull", np.maximum(v - (P @ d).max(), (P @ d).min() - v), 1e-12 * cw)
        R, sh = rand_rot(list(rng.uniform(0, 1, 3))) @ np.diag([1.0, 2.0, 0.3]), rng.normal(size=3)
        mon.near("affine_invariant", fg.nurbezier(t, P @ R.T + sh, W), wr @ R.T + sh, 1e-11 * cw + 1e-11)
        ti = rng.uniform(0.05, 0.95, 5)
        h = 1e-5
        mon.near("diff_t", fg.bezier_diff_t(ti, P), (bern(ti + h, P) - bern(ti - h, P)) / 2 / h, 1e-6 * cond)
        if n >= 3:
            mon.near("second_diff", fg.bezier_diff_t(ti, P, n=2), (bern(ti + 1e-4, P) - 2 * bern(ti, P) + bern(ti - 1e-4, P)) / 1e-8, 1e-4 * cond)
        big = (W.max() / W.min()) ** 3
        mon.near("rational_diff_t", fg.nurbezier_diff_t(ti, P, W), (bern(ti + h, P, W) - bern(ti - h, P, W)) / 2 / h, 1e-6 * cond * big)
        mon.near("scalar_vs_array", [fg.nurbezier_diff_t(float(x), P, W) for x in ti], fg.nurbezier_diff_t(ti, P, W), 1e-10 * cond * big)
        J = fg.nurbezier_diff_points(ti, n, W)
        JW = fg.nurbezier_diff_weights(ti, P, W)
        for k in range(n):
            Q = P.copy()
            Q[k] += [h * s, 0, 0]
            num = (bern(ti, Q, W) - bern(ti, P, W))[:, 0] / (h * s)
            mon.near("diff_points", J[:, k], num, 1e-8)
            Wp, Wm = W.copy(), W.copy()
            Wp[k] *= 1 + h
            Wm[k] *= 1 - h
            mon.near("diff_weights", JW[:, k, :], (bern(ti, P, Wp) - bern(ti, P, Wm)) / (2 * h * W[k]), 1e-6 * s * big + 1e-7 * s / W[k])
        nc = crv.NurbCurve(P, W)
        mon.near("curve_object", np.vstack([nc(0), nc(1)]), P[[0, -1]], 1e-12 * cw)
        mon.near("curve_object", nc.function(t), wr, 1e-12 * cw)
    elif c["kind"] == "arc":
        R = rand_rot(list(rng.uniform(0, 1, 3)))
        cen = rng.normal(size=3) * s
        ang = float(rng.uniform(0.05, 3.0))
        p0 = cen + R @ [s, 0, 0]
        p1 = cen + R @ [s * math.cos(ang), s * math.sin(ang), 0]
        B, w = fg.calc_nurbezier_arc(p0, p1, cen)
        Q = np.asarray(fg.nurbezier(np.linspace(0, 1, 33), B, w))
        L = (Q - cen) @ R
        mon.near("arc_on_circle", np.hypot(L[:, 0], L[:, 1]), s, 1e-10 * s / max(0.05, math.cos(ang / 2)))
        mon.near("arc_on_circle", L[:, 2], 0.0, 1e-10 * s)
        a = np.arctan2(L[:, 1], L[:, 0])
        mon.true("arc_side", np.all(np.diff(a) > 0) and abs(a[-1] - ang) < 1e-9 and abs(a[0]) < 1e-9, ang=ang)
        q = [rng.normal(size=3) for _ in range(3)]
        B = fg.calc_quadratic_bezier_interp(*q)
        mon.near("quadratic_interp", bern(np.array([0, 0.5, 1]), B), q, 1e-12)
    elif c["kind"] == "chain":
        pcs = c["pieces"]
        tot = sum(k - 1 for k in pcs) + 1
        P = rng.normal(size=(tot, 3)) * s
        W = np.exp(rng.normal(size=tot) * c["wspread"])
        kn = np.concatenate([[0], np.cumsum([k - 1 for k in pcs])]).astype(int)
        ch = crv.NURBSCurve.from_points(P.copy(), kn, W.copy())
        mon.near("chain_roundtrip", ch.points, P, 0.0)
        mon.near("chain_roundtrip", ch.weights, W, 0.0)
        mon.true("chain_roundtrip", list(ch.knots) == list(kn), knots=list(ch.knots))
        tt = np.linspace(0, 1, 9)
        for k, cu in enumerate(ch.curves):
            mon.near("chain_roundtrip", fg.nurbezier(tt, cu.points, cu.weights), bern(tt, P[kn[k]:kn[k + 1] + 1], W[kn[k]:kn[k + 1] + 1]), 1e-10 * cond * 100)
        lp = ch.get_length_portions()
        for k in range(1, len(pcs)):
            mon.near("chain_joint", ch(lp[k]), P[kn[k]], 1e-9 * s * 100)
        mon.near("ends", np.vstack([ch(0), ch(1)]), P[[0, -1]], 1e-10 * s * 100)
        N2 = rng.normal(size=(tot, 3)) * s
        ch2 = ch.copy()
        ch2.points = N2
        mon.near("chain_points_setter", ch2.points, N2, 0.0)
        mon.near("chain_points_setter", ch2.length, sum(x.length for x in ch2.curves), 1e-9 * s)
        mon.near("chain_points_setter", ch.points, P, 0.0)
        rv = ch.copy().reverse()
        mon.near("chain_reverse", rv.points, P[::-1], 0.0)
        mon.near("chain_reverse", rv.weights, W[::-1], 0.0)
        mon.near("chain_reverse", rv(np.linspace(0, 1, 7)), ch(1 - np.linspace(0, 1, 7)), 1e-7 * s * 50)
        fc = crv.NURBSCurve.from_curve_chain(crv.CurveChain(*[x.copy() for x in ch.curves]))
        mon.near("from_chain", fc.points, P, 0.0)
        if len(pcs) > 2:
            # a nested chain is flattened in order
            m_ = len(pcs) // 2
            fc = crv.NURBSCurve.from_curve_chain(crv.CurveChain(crv.CurveChain(*[x.copy() for x in ch.curves[:m_]]), *[x.copy() for x in ch.curves[m_:]]))
            mon.near("from_chain", fc.points, P, 0.0)
            mon.near("from_chain", fc.weights, W, 0.0)
        # moving the chain moves all of it, also the pieces that are switched off
        R, sh = rand_rot(list(rng.uniform(0, 1, 3))), rng.normal(size=3) * s
        mv = ch.copy()
        off = int(rng.integers(0, len(pcs)))
        mv.curves[off].active = len(pcs) == 1
        mv.apply_transform(lambda p: p @ R.T + sh)
        mon.near("chain_moved", mv.points, P @ R.T + sh, 1e-12 * s * 10)
        mon.near("chain_moved", mv.weights, W, 0.0)
        mon.near("chain_moved", ch.points, P, 0.0)
        # a piece that is switched off and dropped to its joint sits at the point where it would have started
        if len(pcs) > 1:
            io = ch.copy()
            io.curves[off].active = False
            io.update_lengths()
            # neighbours of a switched-off piece do not meet: the joint is the point that the remaining chain has at that place
            J = P[kn[off]] if off > 0 else P[kn[1]]
            io.update_inactive_continuity()
            if off > 0:
                d_ = np.abs(io.curves[off].points - io.curves[off].points[0]).max()
                mon.near("inactive_joint", d_, 0.0, 1e-12 * s)
                near_ = min(np.abs(io.curves[off].points[0] - P[kn[off]]).max(), np.abs(io.curves[off].points[0] - P[kn[off + 1]]).max())
                mon.near("inactive_joint", near_, 0.0, 1e-7 * s * 100)
        # a nearly closed chain is closed exactly, at the common point and weight
        cl = ch.copy()
        if len(pcs) > 1:
            cl.curves[-1].points[-1] = cl.curves[0].points[0] + 1e-9
            cl.update_lengths()
            if cl.is_closed:
                w_ = (cl.curves[0].weights[0] + cl.curves[-1].weights[-1]) / 2
                p_ = (cl.curves[0].points[0] + cl.curves[-1].points[-1]) / 2
                cl.enforce_continuity()
                mon.near("closed_continuity", [cl.curves[0].points[0], cl.curves[-1].points[-1]], [p_, p_], 1e-14 * (1 + s * 100))
                mon.near("closed_continuity", [cl.curves[0].weights[0], cl.curves[-1].weights[-1]], [w_, w_], 1e-12 * w_)
        gap = crv.NURBSCurve(*[crv.NurbCurve(rng.normal(size=(k, 3)), np.exp(rng.normal(size=k) * c["wspread"])) for k in pcs])
        mids = [(a.points[-1] + b.points[0]) / 2 for a, b in zip(gap.curves[:-1], gap.curves[1:])]
        gap.enforce_continuity()
        for m, a, b in zip(mids, gap.curves[:-1], gap.curves[1:]):
            mon.near("enforce_continuity", np.vstack([a.points[-1], b.points[0]]), np.vstack([m, m]), 1e-12)
            mon.near("enforce_continuity", a.weights[-1], b.weights[0], 1e-12)
        if len(pcs) == 1:
            mon.cover("enforce_continuity")
    elif c["kind"] == "surface":
        m = int(rng.integers(2, 5))
        P = rng.normal(size=(n, m, 3)) * s
        W = np.exp(rng.normal(size=(n, m)) * c["wspread"])
        big = (W.max() / W.min()) * cond * 100
        for u, v in rng.uniform(0, 1, (4, 2)).tolist() + [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0]]:
            Bu = np.array([math.comb(n - 1, k) * u ** k * (1 - u) ** (n - 1 - k) for k in range(n)])
            Bv = np.array([math.comb(m - 1, k) * v ** k * (1 - v) ** (m - 1 - k) for k in range(m)])
            K = np.outer(Bu, Bv) * W
            want = np.einsum("ij,ijk->k", K, P) / K.sum()
            mon.near("surface", fg.nurbezier_surface(u, v, P, W), want, 1e-12 * big)
            mon.near("surface_agree", fg.nurbezier_surface_2(u, v, P, W), want, 1e-12 * big)
    else:
        ty = c["target"]
        r = float(rng.uniform(2, 20))
        if ty == "involute":
            cu = crv.InvoluteCurve(r=r, t0=float(rng.uniform(0.1, 0.2)), t1=float(rng.uniform(0.4, 0.7)), angle=float(rng.uniform(-3, 3)))
        elif ty == "arc":
            cu = crv.ArcCurve(radius=r, angle=float(rng.uniform(0.3, 2.5)), yaw=float(rng.uniform(-3, 3)))
        elif ty == "cycloid":
            cu = crv.CycloidCurve(rb=r, rc=r * float(rng.uniform(0.3, 0.5)), t0=0.05, t1=float(rng.uniform(0.15, 0.4)))
        else:
            p = float(rng.uniform(0.5, 2))
            cu = crv.Curve(lambda x: np.array([r * np.cos(x), r * np.sin(x), p * x]), t0=0.0, t1=float(rng.uniform(0.4, 1.2)))
        # the starting polygons share the ends and the end tangents with the curve
        h = 1e-5
        d0, d1 = (np.asarray(cu(h), float) - cu(0.0)) / h, (np.asarray(cu(1.0), float) - cu(1 - h)) / h
        hc, hq = np.asarray(crv.fit_bezier_hermite_cubic(cu), float), np.asarray(crv.fit_bezier_hermite_quadratic(cu), float)
        mon.near("hermite_ends", np.vstack([hc[0], hc[-1], hq[0], hq[-1]]), np.vstack([cu(0), cu(1), cu(0), cu(1)]), 1e-9 * r)
        Lc = float(cu.length)
        mon.near("hermite_tangents", np.vstack([3 * (hc[1] - hc[0]), 3 * (hc[3] - hc[2])]), np.vstack([d0, d1]), 2e-2 * Lc, target=ty)
        if ty != "spiral":
            a_, b_ = unit(hq[1] - hq[0]), unit(hq[2] - hq[1])
            mon.near("hermite_tangents", np.vstack([a_, b_]), np.vstack([unit(d0), unit(d1)]), 2e-2, target=ty)
            # a flat fit stays at the height of its target
            zz = float(rng.uniform(-9, 9))
            up = crv.TransformedCurve(lambda p: p + np.array([0, 0, zz]), cu)
            _, fp, fw = crv.fit_nurb_optim(up, n_points=c["npt"], force_2D=True)
            mon.near("plane_fit_height", np.asarray(fp, float)[:, 2], zz, 1e-9 * (1 + abs(zz)))
        nb = crv.convert_curve_nurbezier(cu, n_points=c["npt"], samp_ratio=3)
        mon.near("fit_ends", np.vstack([nb(0), nb(1)]), np.vstack([cu(0), cu(1)]), 1e-9 * r)
        T = np.asarray(cu(np.linspace(0, 1, 400)))
        Q = np.asarray(nb(np.linspace(0, 1, 60)))
        d = dist_to_polyline(Q, T)
        lim = dict(arc=1e-5, spiral=6e-4).get(ty, 2.5e-3)      # the refit stops at a cost tolerance; measured worst 2e-6 / 2e-4 / 9e-4
        mon.le("fit_close", d, lim * cu.length, target=ty, n=c["npt"])
        mon.le("fit_close", dist_to_polyline(T[::8], np.asarray(nb(np.linspace(0, 1, 400)))), lim * cu.length, target=ty, n=c["npt"])
    mon.true("input_unchanged", c["kind"] in ("chain", "surface") or (np.array_equal(P, P0) and np.array_equal(W, W0)))
