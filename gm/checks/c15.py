"""Placement of every output against the plain rigid motion (own arithmetic) of the outputs of an unmoved twin, over hostile
orientations (half turns, quarter turns, Euler-singular) and every order of moving, building, updating and resetting."""
import math
import numpy as np
from scipy.spatial import cKDTree
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen

PROP = "C15"
TECHNIQUE = "runtime monitoring: all outputs of moved gears compared with the rigidly moved outputs of an unmoved twin"
RULE = ("Case = one gear (any family) and a sequence of poses, with builds, updates and a reset in between. Non-trivial = at least one output of every "
        "kind (curves, circles, locations, wire; solids when built) was compared at a non-identity pose.")
COUNT = {"quick": 91, "thorough": 1500}
CASE_TIMEOUT = 150
REQUIRED = ["solid_vertices", "solid_volume", "wire_points", "boundary_points", "centre_points", "location_origin", "location_axes", "face_location", "circle_points", "apex",
            "solid_after_update", "reset", "singular_orientation", "base_circle"] + gen.FAMILIES


def hostile_rot(r):
    k = r.random()
    if k < 0.5:
        i = r.randrange(3)
        R = rot_axis(np.eye(3)[i], r.choice([PI / 2, -PI / 2, PI, 1e-9, PI / 2 + 1e-8]))
        if r.random() < 0.5:
            R = R @ rot_axis(np.eye(3)[r.randrange(3)], r.choice([PI / 2, PI, r.uniform(-3, 3)]))
        return R.tolist()
    return rand_rot([r.random(), r.random(), r.random()]).tolist()


def draw(r, i, tier):
    fam = gen.FAMILIES[i % len(gen.FAMILIES)]
    s = gen.family_spec(r, fam, height=r.choice([1.0, 2.0]))
    build = (i // 13) % (5 if "bevel" not in fam else 9) == 0
    if build:
        s["kw"]["number_of_teeth"] = min(s["kw"]["number_of_teeth"], 18 if "ring" not in fam else 40)
    poses = [dict(c=gen.vec(r, 40), R=hostile_rot(r), a=gen.angle(r)) for _ in range(2)]
    return dict(spec=s, build=build, poses=poses, f=r.choice([0.0, 0.5, 1.0, round(r.random(), 3)]), how=r.choice(["ctor", "attr", "inplace"]), order=r.randrange(3))


def corpus(tier):
    out = []
    for k, R in enumerate([rot_axis([0, 1, 0], PI / 2), rot_axis([0, 1, 0], -PI / 2), rot_axis([1, 0, 0], PI), rot_axis([0, 0, 1], PI), np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0.0]])]):
        out.append(dict(spec=dict(cls="HelicalGear", kw=dict(number_of_teeth=13, helix_angle=0.3, module=2.0, height=3.0, z_anchor=0.25), fam="helical"), build=True,
                        poses=[dict(c=[3, -4, 5], R=R.tolist(), a=0.4 * k), dict(c=[0, 0, 0], R=np.eye(3).tolist(), a=0.0)], f=0.5, how="attr", order=k % 3))
    return out


def put(g, p, how):
    t = g.gearcore.transform
    c, R = np.array(p["c"], float), np.array(p["R"], float)
    if how == "inplace":
        t.center[:] = c
        t.orientation[:] = R
    else:
        g.center = c
        t.orientation = R
    g.angle = p["a"]


def vv(v):
    return np.array([v.X, v.Y, v.Z], float)


def verts(part):
    return np.array([vv(v) for v in part.vertices()])


def setdist(A, B):
    if len(A) != len(B):
        return 1e9
    return max(cKDTree(A).query(B)[0].max(), cKDTree(B).query(A)[0].max())


def loc_mat(loc):
    """position and axes of a CAD location, read through its 4x4 matrix"""
    T = loc.wrapped.Transformation()
    M = np.array([[T.Value(i, j) for j in (1, 2, 3, 4)] for i in (1, 2, 3)])
    return M[:, 3], M[:, :3]


def circles(g, z):
    rd = g.radii_data_gen(z)
    return {k: np.asarray(getattr(rd, k)(np.linspace(0, 1, 9)), float) for k in ("r_a_curve", "r_d_curve", "r_o_curve", "r_p_curve")}, \
        {k: (np.asarray(getattr(rd, k).center, float), float(getattr(rd, k).radius)) for k in ("r_a_curve", "r_d_curve", "r_o_curve", "r_p_curve")}


def wire_pts(w):
    P = []
    for e in w.edges():
        for u in (0.0, 0.3, 0.5, 0.8, 1.0):
            P.append(vv(e.position_at(u)))
    return np.array(P)


def outputs(g, f, gam, involute):
    z = g.p2z(f)
    o = {}
    o["bnd"] = np.asarray(g.gearcore.boundary_at_z(z, continuous=False)(np.linspace(0, 1, 101)), float)
    o["circ"], o["cdata"] = circles(g, z)
    o["cp"] = np.array([g.center_point_bottom, g.center_point_middle, g.center_point_top, g.center_point_at_z(z)], float)
    o["loc"] = [loc_mat(l) for l in (g.center_location_bottom, g.center_location_middle, g.center_location_top, g.center_location_at_z(z))]
    o["face"] = [loc_mat(l) for l in (g.face_location_bottom, g.face_location_top)]
    if gam:
        o["apex"] = np.asarray(g.center_spherical, float)
    elif involute:
        o["base"] = np.asarray(g.circle_involute_base(f)(np.linspace(0, 1, 9)), float)
    return o


def run(c, mon):
    s = c["spec"]
    fam, kw = s["fam"], s["kw"]
    gam = kw.get("cone_angle", 0) / 2
    inv_ = s["cls"] != "CycloidGear"
    tw = make(dict(cls=s["cls"], kw=kw))
    ref = outputs(tw, c["f"], gam, inv_)
    ref_wire = wire_pts(tw.build_boundary_wire(c["f"]))
    mon.cover(fam)
    L = float(np.abs(ref["bnd"]).max()) + 40
    tol = 1e-8 * L
    if c["how"] == "ctor" :
        p = c["poses"][0]
        k2 = dict(kw, center=np.array(p["c"], float), angle=p["a"])
        g = make(dict(cls=s["cls"], kw=k2))
        g.gearcore.transform.orientation = np.array(p["R"], float)
    else:
        g = make(dict(cls=s["cls"], kw=kw))
        put(g, c["poses"][0], c["how"])
    ref_part = tw.build_part() if c["build"] else None
    ref_v = verts(ref_part) if c["build"] else None

    def check(p, tag, wire=True):
        R = np.array(p["R"], float)
        M = R @ rotz(p["a"])
        cc = np.array(p["c"], float)
        mv = lambda P: np.asarray(P) @ M.T + cc
        o = outputs(g, c["f"], gam, inv_)
        mon.near("boundary_points", o["bnd"], mv(ref["bnd"]), tol, tag=tag, fam=fam)
        for k in o["circ"]:
            # circles: same set of points may start elsewhere
            ctr, rad = o["cdata"][k]
            c0, r0 = ref["cdata"][k]
            mon.near("circle_centre", ctr, mv(c0), tol, circle=k, tag=tag, fam=fam)
            mon.near("circle_radius", rad, r0, tol, circle=k, tag=tag, fam=fam)
            mon.near("circle_points", np.linalg.norm(o["circ"][k] - mv(c0), axis=1), r0, tol * 3, circle=k, tag=tag)
            mon.near("circle_plane", (o["circ"][k] - mv(c0)) @ R[:, 2], 0.0, tol * 3, circle=k, tag=tag)
        mon.near("centre_points", o["cp"], mv(ref["cp"]), tol, tag=tag, fam=fam)
        for j, ((q, A), (q0, A0)) in enumerate(zip(o["loc"], ref["loc"])):
            mon.near("location_origin", q, mv(q0), tol, which=j, tag=tag, fam=fam)
            mon.near("location_axes", A, M @ A0, 1e-6, which=j, tag=tag, fam=fam)
        for j, ((q, A), (q0, A0)) in enumerate(zip(o["face"], ref["face"])):
            mon.near("face_location", q, mv(q0), tol, which=j, tag=tag, fam=fam)
            mon.near("face_location_axes", A, M @ A0, 1e-6, which=j, tag=tag, fam=fam)
        if "apex" in o:
            mon.near("apex", o["apex"], mv(ref["apex"]), tol * 3, tag=tag)
        if "base" in o:
            mon.near("base_circle", np.linalg.norm(o["base"] - mv(ref["cp"][3]), axis=1), np.linalg.norm(ref["base"] - ref["cp"][3], axis=1), tol * 3, tag=tag)
            mon.near("base_circle", (o["base"] - mv(ref["cp"][3])) @ R[:, 2], 0.0, tol * 3, tag=tag)
        if wire:
            W = wire_pts(g.build_boundary_wire(c["f"]))
            mon.le("wire_points", setdist(W, mv(ref_wire)), 1e-6 * L, tag=tag, fam=fam)
        if abs(abs(R[2, 0]) - 1) < 1e-6:
            mon.cover("singular_orientation")
        return mv

    def solid(part, mv, tag, name):
        V = verts(part)
        mon.le(name, setdist(V, mv(ref_v)), 2e-6 * L, tag=tag, fam=fam, n=(len(V), len(ref_v)))
        mon.near("solid_volume", float(part.volume) / float(ref_part.volume), 1.0, 1e-6, tag=tag, fam=fam)
        q = vv(part.center())
        # centre of mass, sensitive to reflections of the vertex set
        mon.near("solid_centroid", q, mv(vv(ref_part.center())), 1e-4 * L, tag=tag, fam=fam)

    mv = check(c["poses"][0], "first")
    if c["build"]:
        if c["order"] == 0:
            solid(g.build_part(), mv, "build at pose", "solid_vertices")
        elif c["order"] == 1:
            solid(g.update_part(), mv, "update without build", "solid_vertices")
        else:
            g2 = make(dict(cls=s["cls"], kw=kw))
            g2.build_part()
            put(g2, c["poses"][0], "attr")
            solid(g2.update_part(), mv, "build, move, update", "solid_after_update")
            g.build_part()
    put(g, c["poses"][1], "attr")
    mv = check(c["poses"][1], "second", wire=False)
    if c["build"]:
        solid(g.update_part(), mv, "update after second move", "solid_after_update")
        solid(g.builder.part_transformed, mv, "stored part", "solid_after_update")
    if hasattr(g, "reset_location"):
        g.reset_location()
        mon._ev("reset")
        mv = check(dict(c=[0, 0, 0], R=np.eye(3).tolist(), a=0.0), "reset", wire=False)
        if c["build"]:
            solid(g.update_part(), mv, "update after reset", "solid_after_update")
