"""Purity and repeatability: random sequences of read-only operations over live gears with the complete observable state snapshotted and
compared bit by bit around every operation; results are recomputed, scribbled on, and compared with those of a freshly constructed twin."""
import math, random, dataclasses
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen
from . import c15

PROP = "C19"
TECHNIQUE = "runtime monitoring: state-snapshot monitor around random sequences of read-only operations, with result scribbling and twin comparison"
RULE = "Case = one gear (pose, family) and a random sequence of queries and builds. Non-trivial = at least six operations were executed and the state compared after each."
COUNT = {"quick": 65, "thorough": 3000}
CASE_TIMEOUT = 150
REQUIRED = ["state_unchanged", "sections_unchanged", "same_result_again", "twin_same", "scribble_safe", "op:properties", "op:boundary", "op:wire", "op:circles", "op:part", "op:line_of_action", "op:profile",
            "op:locations", "op:update", "op:copy", "op:base_circle", "constants_unchanged", "used_as_mesh_target", "part_unchanged"] + gen.FAMILIES
OPS = ["properties", "boundary", "wire", "circles", "line_of_action", "profile", "locations", "copy", "base_circle", "mesh_target", "part", "update", "cone"]


def draw(r, i, tier):
    fam = gen.FAMILIES[i % len(gen.FAMILIES)]
    s = gen.family_spec(r, fam, height=1.0)
    heavy = (i // 13) % 5 == 0
    if heavy:
        s["kw"]["number_of_teeth"] = min(s["kw"]["number_of_teeth"], 14 if "ring" not in fam else 32)
    ops = []
    for _ in range(r.randint(6, 9)):
        o = r.choice(OPS[:-3] + ["cone"])
        ops.append(o)
    if heavy:
        ops.insert(r.randrange(len(ops)), "part")
        ops.insert(r.randrange(len(ops)), "update")
    return dict(spec=s, place=gen.placement(r), ops=ops, r=r.randrange(10**6))


def corpus(tier):
    import random as rd
    out = []
    for k in range(13):
        c = draw(rd.Random(f"c19{k}"), 13 + k, tier)
        c["ops"] = ["wire", "wire", "boundary", "wire", "circles", "properties", "line_of_action", "profile", "copy", "base_circle"]
        out.append(c)
    return out


def cheap(g):
    """pose and parameters, exactly"""
    t = g.gearcore.transform
    p = g.inputparam
    d = {f.name: getattr(p, f.name) for f in dataclasses.fields(p)}
    d = {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in d.items()}
    gc = g.gearcore
    tr = gc.shape_recipe(float(gc.z_vals[-1])).transform
    return (np.array(t.center, float).tobytes(), np.array(t.orientation, float).tobytes(), float(t.angle), float(t.scale), repr(sorted(d.items(), key=str)),
            np.array(gc.z_vals, float).tobytes(), float(gc.module), float(gc.tooth_param.num_teeth), bool(gc.tooth_param.inside_teeth), float(gc.cone.cone_angle),
            float(tr.angle), float(tr.scale), np.array(tr.center, float).tobytes())


def full(g):
    """sampled reference tooth at two heights, in world space"""
    zv = g.gearcore.z_vals
    out = []
    for f in (0.0, 0.7):
        z = float(zv[0] + f * (zv[-1] - zv[0]))
        pr = g.gearcore.curve_gen_at_z(z)
        for c in (pr.rd_curve, pr.tooth_curve, pr.ra_curve, pr.tooth_curve_mirror, pr.ro_curve):
            out.append(applyT(applyT(np.asarray(c(np.linspace(0, 1, 7)), float), pr.transform), g.gearcore.transform))
    return np.concatenate(out)


def consts():
    import gggears.defs as d
    return {k: np.array(v).tobytes() for k, v in vars(d).items() if isinstance(v, np.ndarray)}


def digest(x):
    """numbers of a result"""
    if x is None:
        return np.zeros(0)
    return np.concatenate([np.asarray(a, float).ravel() for a in x])


def do(g, op, r, other):
    """-> (numbers, objects to scribble on)"""
    import gggears as gg
    f = r.choice([0.0, 0.5, 1.0, round(r.random(), 3)])
    z = float(g.p2z(f))
    if op == "properties":
        num = []
        for k in sorted(n for n in dir(type(g)) if not n.startswith("_") and isinstance(getattr(type(g), n, None), property)):
            try:
                v = getattr(g, k)
            except Exception:     # not defined for this kind of gear
                continue
            if isinstance(v, (int, float, np.floating, np.integer)):
                num.append(float(v))
            elif isinstance(v, np.ndarray) and v.dtype.kind == "f":
                num.append(np.array(v))
            elif isinstance(v, (list, tuple)) and v and isinstance(v[0], (float, np.floating)):
                num.append(np.array(v))
        return digest(num), [g.center_point_bottom, g.center_point_middle, g.center_point_top, g.center_point_at_z(z)]
    if op == "boundary":
        c1 = g.gearcore.boundary_at_z(z, continuous=r.random() < 0.5)
        return digest([c1(np.linspace(0, 1, 15))]), [c1]
    if op == "wire":
        w = g.build_boundary_wire(f)
        return digest([c15.wire_pts(w)[:40]]), []
    if op == "circles":
        rd = g.radii_data_gen(z)
        cs = [rd.r_a_curve, rd.r_d_curve, rd.r_o_curve, rd.r_p_curve]
        return digest([c(np.linspace(0, 1, 5)) for c in cs] + [c.radius for c in cs] + [c.center for c in cs]), cs
    if op == "profile":
        p = g.gearcore.curve_gen_at_z(z)
        cs = [p.rd_curve, p.tooth_curve, p.ra_curve, p.ro_curve]
        return digest([c(np.linspace(0, 1, 5)) for c in cs] + [p.pitch_angle, p.transform.center, p.transform.angle]), cs + [p.transform]
    if op == "locations":
        ls = [g.center_location_bottom, g.center_location_middle, g.center_location_top, g.face_location_top, g.face_location_bottom, g.center_location_at_z(z)]
        return digest([np.concatenate([q, A.ravel()]) for q, A in map(c15.loc_mat, ls)]), []
    if op == "copy":
        k = g.copy()
        t = k.gearcore.transform
        n = digest([t.center, t.orientation, t.angle])
        return n, [t]
    if op == "base_circle":
        if not hasattr(g, "circle_involute_base") or g.cone_angle:
            return digest([0.0]), []
        c = g.circle_involute_base(f)
        return digest([c.radius, c.center, c(np.linspace(0, 1, 5))]), [c]
    if op == "line_of_action":
        if not hasattr(g, "circle_involute_base") or g.cone_angle or other is None:
            return digest([0.0]), []
        try:
            ls = gg.LineOfAction(g, other, f).LOA_gen()
        except ValueError:
            return digest([1.0]), []
        return digest([l(np.linspace(0, 1, 3)) for l in ls]), list(ls)
    if op == "cone":
        return digest(list(g.cone_angles_at_z(z))) if g.cone_angle else digest([g.z_height]), []
    if op in ("part", "update"):
        p = g.build_part() if op == "part" else g.update_part()
        V = c15.verts(p)
        return digest([V[np.lexsort(V.T)], p.volume]), []
    raise KeyError(op)


def scribble(obj, depth=0):
    """overwrite what a caller may overwrite in a result of its own"""
    if isinstance(obj, np.ndarray):
        if obj.dtype.kind == "f" and obj.flags.writeable:
            obj += 17.25
        return
    if depth > 2:
        return
    for k in ("center", "p0", "p1", "p_0", "p_1", "orientation"):
        if k in getattr(obj, "__dict__", {}) and isinstance(obj.__dict__[k], np.ndarray):
            scribble(obj.__dict__[k], depth + 1)
    for k in ("angle", "radius", "scale"):
        if k in getattr(obj, "__dict__", {}) and isinstance(obj.__dict__[k], (int, float)):
            obj.__dict__[k] = 3.3
    if hasattr(obj, "get_curves") and isinstance(obj.get_curves(), (list, tuple)) and depth < 2:
        for c in obj.get_curves():
            scribble(c, depth + 1)
    if hasattr(obj, "reverse"):
        try:
            obj.reverse()
        except Exception:
            pass


def run(c, mon):
    import gggears as gg
    s = c["spec"]
    r = random.Random(c["r"])
    g = make(dict(cls=s["cls"], kw=s["kw"], **c["place"]))
    fam = s["fam"]
    mon.cover(fam)
    other = None
    if hasattr(g, "circle_involute_base") and not g.cone_angle and "ring" not in fam:
        other = make(dict(cls="SpurGear", kw=dict(number_of_teeth=50, module=s["kw"]["module"]), pos=[g.pitch_radius * 2 + 40 * s["kw"]["module"], 0, 0]))
    st, K = cheap(g), consts()
    fl = full(g)
    so = cheap(other) if other is not None else None
    mon.true("state_unchanged", cheap(g) == st, op="boundary", fam=fam)
    log, parts = [], []
    for j, op in enumerate(c["ops"]):
        seed = r.randrange(10**9)
        if op == "mesh_target":
            mv = make(dict(cls=s["cls"], kw=dict(s["kw"], number_of_teeth=s["kw"]["number_of_teeth"] + 3)))
            if "ring" in fam:
                mv = make(dict(cls="SpurGear" if "helical" not in fam and "herring" not in fam else "HelicalGear", kw=dict({k: v for k, v in s["kw"].items() if k in ("module", "pressure_angle", "helix_angle", "height")}, number_of_teeth=12))) if s["cls"] != "CycloidGear" else make(dict(cls="CycloidGear", kw=dict(number_of_teeth=12, module=s["kw"]["module"])))
            mv.mesh_to(g, target_dir=in_plane_dir(g, r.uniform(-3, 3)))
            mon._ev("used_as_mesh_target")
            num = None
        else:
            num, objs = do(g, op, random.Random(seed), other)
            log.append((op, seed, num))
            mon._ev("op:" + op)
            if op in ("part", "update"):
                parts.append((g.builder.part_transformed, num))
            for o in objs:
                scribble(o)
            if objs:
                mon.true("scribble_safe", cheap(g) == st, op=op, fam=fam)
        mon.true("state_unchanged", cheap(g) == st, op=op, step=j, fam=fam, ops=c["ops"])
        if so is not None:
            mon.true("other_unchanged", cheap(other) == so, op=op)
        if consts() != K:
            mon.fail("constants_unchanged", op=op, fam=fam)
            return
        mon._ev("constants_unchanged")
    f2 = full(g)
    mon.true("sections_unchanged", f2.tobytes() == fl.tobytes(), fam=fam, err=float(np.abs(f2 - fl).max()), ops=c["ops"])
    tw = make(dict(cls=s["cls"], kw=s["kw"], **c["place"]))
    mon.true("twin_same", cheap(tw) == st and full(tw).tobytes() == fl.tobytes(), fam=fam)
    for op, seed, num in log[:: (1 if len(log) < 4 else 2)]:
        if op in ("part", "update"):
            continue
        n2, _ = do(g, op, random.Random(seed), other)
        n3, _ = do(tw, op, random.Random(seed), other)
        mon.true("same_result_again", n2.shape == num.shape and np.array_equal(n2, num, equal_nan=True), op=op, fam=fam, err=float(np.abs(n2 - num).max()) if n2.shape == num.shape and n2.size else None)
        mon.true("twin_same", n3.shape == num.shape and np.array_equal(n3, num, equal_nan=True), op=op, fam=fam)
    for p, num in parts:
        V = c15.verts(p)
        mon.true("part_unchanged", np.array_equal(digest([V[np.lexsort(V.T)], p.volume]), num), fam=fam)
    if len([1 for o in c["ops"] if o in ("part", "update")]) and parts:
        mon.near("same_part_again", parts[-1][1], parts[0][1], 1e-7 * (1 + np.abs(parts[0][1]).max())) if parts[-1][1].shape == parts[0][1].shape else mon.fail("same_part_again", fam=fam)
