"""Coordinate maps and vector helpers against their definitions. Oracle: own trigonometry (atan2 based, stable near the poles),
round trips in both directions and scalar/array agreement, on random and degenerate points."""
import numpy as np
from ..geom import *
from .. import gen

PROP = "C27"
TECHNIQUE = "runtime monitoring: definition and round-trip oracles on every coordinate map call of the real library"
RULE = ("Case = a batch of points (generic, on axes, near poles, tiny, huge) with a centre, mapped by one coordinate system or helper. "
        "Non-trivial = at least one value was compared with its definition and one round trip was closed.")
COUNT = {"quick": 900, "thorough": 20000}
REQUIRED = ["sph_def", "sph_round", "sph_back", "sph_range", "cyl_def", "cyl_round", "cyl_back", "polar_def", "polar_round", "polar_back", "array_vs_single", "rotate", "angle_between", "angle_plane", "project", "xy_angle", "normalize",
            "cone_positive", "cone_negative", "cylinder", "pole", "input_unchanged", "lerp", "interpolate", "polar_distance", "parallel_vectors"]


def draw(r, i, tier):
    return dict(what=["sph", "cyl", "polar", "vec"][i % 4], seed=r.randint(0, 10 ** 9), scale=10 ** r.uniform(-3, 3), center=r.choice([None, gen.vec(r, 10)]),
                cone=r.choice([0.0, 1.0, -1.0, np.pi / 2, 0.02]) if r.random() < 0.5 else round(r.uniform(-2.9, 2.9), 4), rad=round(10 ** r.uniform(-1, 2), 4))


def corpus(tier):
    return [dict(what=w, seed=s, scale=1.0, center=c, cone=k, rad=10.0) for w in ("sph", "cyl", "polar", "vec") for s in (1, 2) for c in (None, [1.0, -2.0, 3.0]) for k in (0.0, 0.9, -0.9)]


def pts(rng, s):
    P = rng.normal(size=(10, 3))
    ax = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1], [1e-7, 0, 1], [0, -1e-6, -1], [-1, 1e-9, 0], [-1, -1e-9, 0]], float)
    return np.vstack([P, ax]) * s


def run(c, mon):
    import gggears.function_generators as fg
    from gggears.gggears_core import GearPolarTransform
    rng = np.random.default_rng(c["seed"])
    P = pts(rng, c["scale"])
    cen = np.array(c["center"] or [0, 0, 0], float)
    kw = dict(center=cen) if c["center"] is not None else {}
    P0 = P.copy()
    sc = c["scale"] + np.max(np.abs(cen))
    eps = 4e-16 * 50
    if c["what"] == "sph":
        Q = P + cen
        S = np.asarray(fg.xyz_to_spherical(Q, **kw))
        d = Q - cen
        rho = np.hypot(d[:, 0], d[:, 1])
        r = np.sqrt((d ** 2).sum(1))
        th = np.arctan2(rho, d[:, 2])
        ill = eps / np.maximum(np.sin(th), 1e-8) + eps * sc / r / np.maximum(np.sin(th), 1e-8)  # arccos is ill conditioned near the poles
        mon.near("sph_def", S[:, 0], r, eps * sc * 4)
        mon.le("sph_def", np.abs(S[:, 2] - th), ill + 3e-8 * (np.sin(th) < 1e-4) + 1e-12)
        gen_pt = rho > 1e-9 * r
        dphi = np.abs(np.exp(1j * S[:, 1]) - np.exp(1j * np.arctan2(d[:, 1], d[:, 0])))
        mon.le("sph_def", dphi[gen_pt], 1e-9)
        mon.true("sph_range", np.all(S[:, 0] >= 0) and np.all((S[:, 2] >= 0) & (S[:, 2] <= np.pi)) and np.all(np.abs(S[:, 1]) <= np.pi))
        mon.near("sph_round", fg.spherical_to_xyz(S, **kw) - Q, 0.0, 5e-8 * sc)
        gp = np.sin(th) > 1e-3
        mon.near("sph_round", (fg.spherical_to_xyz(S, **kw) - Q)[gp], 0.0, 1e-11 * sc)
        mon.cover("pole")
        A = np.stack([rng.uniform(0.1, 5, 12) * c["scale"], rng.uniform(-3.1, 3.1, 12), rng.uniform(0.05, 3.09, 12)], 1)
        X = np.asarray(fg.spherical_to_xyz(A, **kw))
        mon.near("sph_def", X, cen + A[:, :1] * np.stack([np.sin(A[:, 2]) * np.cos(A[:, 1]), np.sin(A[:, 2]) * np.sin(A[:, 1]), np.cos(A[:, 2])], 1), 1e-13 * sc * 10)
        mon.near("sph_back", np.asarray(fg.xyz_to_spherical(X, **kw)) / [c["scale"], 1, 1], A / [c["scale"], 1, 1], 1e-11 * max(1, sc / c["scale"]))
        mon.near("array_vs_single", np.array([fg.xyz_to_spherical(q, **kw) for q in Q]), S, 1e-13 * sc + 1e-15)
        mon.near("array_vs_single", np.array([fg.spherical_to_xyz(a, **kw) for a in A]), X, 1e-13 * sc)
    elif c["what"] == "cyl":
        Q = P + cen
        S = np.asarray(fg.xyz_to_cylindrical(Q, **kw))
        d = Q - cen
        mon.near("cyl_def", S[:, [0, 2]], np.stack([np.hypot(d[:, 0], d[:, 1]), d[:, 2]], 1), 1e-14 * sc)
        mon.near("cyl_round", fg.cylindrical_to_xyz(S, **kw), Q, 1e-14 * sc * 10)
        A = np.stack([rng.uniform(0.1, 5, 12) * c["scale"], rng.uniform(-3.1, 3.1, 12), rng.normal(size=12) * c["scale"]], 1)
        X = np.asarray(fg.cylindrical_to_xyz(A, **kw))
        mon.near("cyl_def", X, cen + np.stack([A[:, 0] * np.cos(A[:, 1]), A[:, 0] * np.sin(A[:, 1]), A[:, 2]], 1), 1e-13 * sc)
        mon.near("cyl_back", np.asarray(fg.xyz_to_cylindrical(X, **kw)) / [c["scale"], 1, c["scale"]], A / [c["scale"], 1, c["scale"]], 1e-12 * max(1, sc / c["scale"]))
        mon.near("array_vs_single", np.array([fg.xyz_to_cylindrical(q, **kw) for q in Q]), S, 1e-14 * sc)
        mon.near("array_vs_single", np.array([fg.cylindrical_to_xyz(a, **kw) for a in A]), X, 1e-14 * sc)
    elif c["what"] == "polar":
        k, b = c["cone"], c["rad"]
        T = GearPolarTransform(cone_angle=k, base_radius=b)
        Q = rng.normal(size=(14, 3)) * b * 0.2 + [b, 0, 0]
        Q = Q @ rotz(float(rng.uniform(-3, 3))).T
        S = np.asarray(T(Q))
        az = np.arctan2(Q[:, 1], Q[:, 0])
        if k == 0:
            mon.cover("cylinder")
            want = np.stack([np.hypot(Q[:, 0], Q[:, 1]), az, Q[:, 2]], 1)
            L = b
        else:
            mon.cover("cone_positive" if k > 0 else "cone_negative")
            g = abs(k) / 2
            R = b / np.sin(g)
            s = np.sign(k)
            apex = np.array([0, 0, s * b / np.tan(g)])
            d = Q - apex
            rr = np.sqrt((d ** 2).sum(1))
            gam = np.arctan2(np.hypot(d[:, 0], d[:, 1]), -s * d[:, 2])     # angle from the axis, seen from the apex
            want = np.stack([(gam - np.pi / 2) * R, az, R - rr], 1)
            L = R
        mon.near("polar_def", (S - want) / [L, 1, L], 0.0, 1e-9, cone=k)
        mon.near("polar_round", T.inv(S), Q, 1e-9 * L)
        mon.near("polar_round", T.inverse_polar_transform(T.polar_transform(Q)), Q, 1e-9 * L)
        mon.near("array_vs_single", np.array([T(q) for q in Q]), S, 1e-12 * L)
        mon.near("array_vs_single", np.array([T.inv(q) for q in S]), T.inv(S), 1e-12 * L)
        # out-distance along the meridian is an arc length (cone) or a length (cylinder) on the reference surface
        A = S.copy()
        A[:, 2] = 0.0 if k else A[:, 2]
        X = np.asarray(T.inv(A))
        h = 1e-5 * L
        B = A.copy()
        B[:, 0] += h
        mon.near("polar_distance", np.linalg.norm(np.asarray(T.inv(B)) - X, axis=1) / h, 1.0, 1e-6, cone=k)
        mon.near("polar_back", (np.asarray(T(X)) - A) / [L, 1, L], 0.0, 1e-8)
    else:
        a = float(rng.uniform(-9, 9))
        mon.near("rotate", fg.rotate_vector(P, a), P @ rotz(a).T, 1e-14 * c["scale"] * 10)
        mon.near("rotate", [fg.rotate_vector(p, a) for p in P], P @ rotz(a).T, 1e-14 * c["scale"] * 10)
        V = rng.normal(size=(10, 3)) * c["scale"]
        for j, (p, v) in enumerate(zip(P, V)):
            u = unit(p)
            mon.near("normalize", fg.normalize_vector(p), u, 1e-14)
            th = 2 * np.arctan2(np.linalg.norm(u - unit(v)), np.linalg.norm(u + unit(v)))
            mon.near("angle_between", [fg.angle_between_vectors(p, v), fg.angle_between_vectors(v, p)], [th, th], 1e-12)
            n = unit(v)
            pr = fg.project_vector_to_plane(p, n)
            mon.near("project", [np.dot(pr, n) / np.linalg.norm(p), np.linalg.norm(np.cross(p - pr, n)) / np.linalg.norm(p)], [0.0, 0.0], 1e-13)
            mon.near("angle_plane", fg.angle_between_vector_and_plane(p, n), abs(np.pi / 2 - th), 1e-9)
            mon.near("angle_plane", [fg.angle_between_vector_and_plane(-p, n), fg.angle_between_vector_and_plane(p * 3, -n)], [abs(np.pi / 2 - th)] * 2, 1e-9)
            q = fg.angle_of_vector_in_xy(p)
            mon.near("xy_angle", [np.cos(q) * np.hypot(p[0], p[1]), np.sin(q) * np.hypot(p[0], p[1])], p[:2], 1e-13 * c["scale"])
        for s_, w in ((1.0, 0.0), (2.5, 0.0), (-1.0, np.pi), (-7.0, np.pi)):
            mon.near("angle_between", fg.angle_between_vectors(V[0], V[0] * s_), w, 1e-7)
        for e in np.eye(3):
            mon.near("angle_plane", [fg.angle_between_vector_and_plane(e * 4.0, e), fg.angle_between_vector_and_plane(np.roll(e, 1) * 4.0, e)], [np.pi / 2, 0.0], 1e-12)
        mon.cover("parallel_vectors")
        t = rng.uniform(-1, 2, 5)
        A, B = rng.normal(size=3), rng.normal(size=3)
        mon.near("lerp", fg.lerp(t, A, B), np.outer(1 - t, A) + np.outer(t, B), 1e-13)
        A2, B2 = rng.normal(size=(2, 3)), rng.normal(size=(2, 3))
        mon.near("lerp", fg.lerp(t, A2, B2), A2 + t[:, None, None] * (B2 - A2), 1e-13)
        x0, x1, y0, y1 = rng.normal(size=4)
        if abs(x1 - x0) > 1e-2:
            mon.near("interpolate", fg.interpolate(np.array([x0, x1, (x0 + x1) / 2, 2 * x1 - x0]), x0, x1, y0, y1), [y0, y1, (y0 + y1) / 2, 2 * y1 - y0], 1e-9)
    mon.true("input_unchanged", np.array_equal(P, P0))
