"""Operation histories: a random sequence of moves, turns, meshes, copies, resets, builds, updates and queries runs on a population of live gears while a plain sequential model keeps
(constructor call, centre, axes, angle) per gear; meshes are predicted by freshly constructed gears put at the modelled poses. After every step each pose is compared with the model, at the
end each boundary with that of a fresh gear; parts and wires handed out earlier are re-read at the end."""
import math, random
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen
from . import c04, c15, c19

PROP = "C35"
TECHNIQUE = "runtime monitoring: online model-based trace checker over random operation histories on several live gears"
RULE = "Case = one history (8-16 operations) over 2-6 live gears. Non-trivial = at least one mutating operation happened and every gear was compared with the model after each operation."
COUNT = {"quick": 80, "thorough": 4000}
CASE_TIMEOUT = 200
REQUIRED = ["pose_model", "boundary_model", "mesh_again", "relative_placement", "wire_kept", "part_kept", "part_follows", "reported_model", "op:move", "op:turn", "op:tilt", "op:mesh", "op:copy", "op:reset", "op:wire",
            "op:query", "op:part", "op:update", "op:chain", "op:remesh"] + c04.KINDS


def draw(r, i, tier):
    kind = c04.KINDS[i % len(c04.KINDS)]
    s = c04.pair_spec(r, kind)
    heavy = i % 5 == 0
    if heavy:
        for q in s:
            ring = "Ring" in q["cls"] or q["kw"].get("inside_teeth")
            if kind in ("ring", "helical_ring", "cycloid_ring"):
                q["kw"]["number_of_teeth"] = 34 if ring else 10
            elif "bevel" not in kind and kind != "spiral":
                q["kw"]["number_of_teeth"] = r.randint(8, 13)
            q["kw"]["height"] = round(q["kw"]["module"] * 1.0, 4)
        if kind in ("bevel", "spiral", "cycloid_bevel"):
            heavy = False
    ops = []
    menu = ["move", "turn", "tilt", "mesh", "mesh", "copy", "reset", "wire", "query", "chain", "remesh", "mesh"]
    for _ in range(r.randint(8, 16)):
        ops.append([r.choice(menu), r.random(), r.random(), r.random()])
    if heavy:
        for o in ("part", "update", "update"):
            ops.insert(r.randrange(len(ops)), [o, r.random() * 0.4, r.random(), r.random()])
    return dict(kind=kind, s=s, place=[gen.placement(r), gen.placement(r)], ops=ops)


def corpus(tier):
    out = []
    for k, kind in enumerate(("spur", "helical", "ring", "cycloid")):
        r = random.Random(f"c35{k}")
        c = draw(r, c04.KINDS.index(kind), tier)
        for q in c["s"]:
            q["kw"].update(number_of_teeth=(36 if "Ring" in q["cls"] else 11), height=q["kw"]["module"])
        c["ops"] = [[o, r.random() * 0.4, r.random(), r.random()] for o in ("part", "move", "wire", "update", "mesh", "turn", "update", "copy", "reset", "mesh", "wire", "part", "remesh", "chain", "update")]
        out.append(c)
    return out


class M:
    """what the model knows about one gear"""

    def __init__(self, k, spec, pos, R, ang):
        self.k, self.spec, self.pos, self.R, self.ang = k, spec, np.array(pos, float), np.array(R, float), float(ang)

    def fresh(self):
        g = make(dict(cls=self.spec["cls"], kw=self.spec["kw"]))
        t = g.gearcore.transform
        t.center, t.orientation, t.angle = self.pos.copy(), self.R.copy(), self.ang
        return g

    def set_from(self, g):
        t = g.gearcore.transform
        self.pos, self.R, self.ang = np.array(t.center, float), np.array(t.orientation, float), float(t.angle)

    def clone(self):
        return M(self.k, self.spec, self.pos, self.R, self.ang)


def rel(a, b):
    """placement of a seen from b (axes and position)"""
    ta, tb = a.gearcore.transform, b.gearcore.transform
    R = np.asarray(tb.orientation, float)
    return np.concatenate([(np.asarray(ta.center, float) - np.asarray(tb.center, float)) @ R, (R.T @ np.asarray(ta.orientation, float)).ravel()])


def run(c, mon):
    import gggears as gg
    kind = c["kind"]
    mon.cover(kind)
    cyc = "cycloid" in kind
    G, MD = [], []
    for k, s in enumerate(c["s"]):
        pl = c["place"][k]
        R = rand_rot(pl["rot"]) if pl["rot"] else np.eye(3)
        g = make(dict(cls=s["cls"], kw=s["kw"], **pl))
        G.append(g)
        MD.append(M(k, s, pl["pos"], R, pl["angle"]))
    kept = []          # (label, reader, numbers at hand-out)
    meshes = []        # (moved, fixed, arguments)
    S = 1.0

    def call(a, b, args):
        if cyc or kind in ("bevel", "spiral"):
            a.mesh_to(b, target_dir=args["d"])
        else:
            a.mesh_to(b, target_dir=args["d"], backlash=args["bl"], angle_bias=args["bias"])

    def mesh(i, j, args):
        fi, fj = MD[i].fresh(), MD[j].fresh()
        call(fi, fj, args)
        call(G[i], G[j], args)
        MD[i].set_from(fi)

    for step, (op, x, y, w) in enumerate(c["ops"]):
        i = int(x * len(G)) % len(G)
        r = random.Random(int(w * 1e9))
        g, md = G[i], MD[i]
        mon._ev("op:" + op)
        if op == "move":
            p = np.array(gen.vec(r))
            g.center = p.copy()
            md.pos = p
        elif op == "turn":
            a = gen.angle(r)
            if y < 0.5:
                g.angle = a
                md.ang = a
            else:
                g.angle += a
                md.ang = md.ang + a
        elif op == "tilt":
            R = rand_rot([r.random(), r.random(), r.random()])
            g.gearcore.transform.orientation = R.copy()
            md.R = R
        elif op in ("mesh", "chain", "remesh"):
            if op == "remesh":
                if not meshes:
                    continue
                i, j, args, _ = meshes[int(y * len(meshes))]
                args = dict(args, d=np.asarray(G[j].gearcore.transform.orientation, float) @ args["local"])
            else:
                cand = [q for q in range(len(G)) if MD[q].k != md.k]
                j = cand[int(y * len(cand))]
                phi = gen.direction_in_plane(r)
                loc = np.array([math.cos(phi), math.sin(phi), 0.0])
                args = dict(local=loc, d=np.asarray(G[j].gearcore.transform.orientation, float) @ loc, bl=r.choice([0, 0, 0.05]) * c["s"][0]["kw"]["module"], bias=r.choice([0, 0.4]))
            mesh(i, j, args)
            now = rel(G[i], G[j])
            if op == "remesh":
                old = [m for m in meshes if m[0] == i and m[1] == j and np.array_equal(m[2]["local"], args["local"]) and m[2]["bl"] == args["bl"]][0]
                S = 1 + np.abs(old[3]).max()
                mon.near("relative_placement", now, old[3], 1e-8 * S, op=op, step=step)
            else:
                meshes.append((i, j, args, now))
            # the same call again lands on the same pose
            before = pose(G[i])
            call(G[i], G[j], args)
            f = MD[i].fresh()
            call(f, MD[j].fresh(), args)
            MD[i].set_from(f)
            after = pose(G[i])
            sc = 1 + np.abs(before[0]).max()
            mon.near("mesh_again", after[0], before[0], 1e-9 * sc)
            mon.near("mesh_again", after[1], before[1], 1e-9)
            if op == "chain":
                # drive on: a third gear hangs on the one just placed
                more = [q for q in range(len(G)) if MD[q].k != MD[i].k and q != j]
                if more:
                    h = more[int(w * len(more))]
                    d = np.asarray(G[i].gearcore.transform.orientation, float) @ np.array([0.6, -0.8, 0.0])
                    mesh(h, i, dict(d=d, bl=0.0, bias=0))
        elif op == "copy":
            if len(G) < 6:
                G.append(g.copy())
                MD.append(md.clone())
        elif op == "reset":
            if hasattr(g, "reset_location"):
                g.reset_location()
                md.pos, md.R, md.ang = np.zeros(3), np.eye(3), 0.0
        elif op == "wire":
            if sum(k[0] == "wire_kept" for k in kept) >= 2:
                continue
            wr = g.build_boundary_wire(y)
            kept.append(("wire_kept", lambda wr=wr: c15.wire_pts(wr)[:60], c15.wire_pts(wr)[:60]))
        elif op == "query":
            for q in r.sample(["properties", "boundary", "circles", "profile", "locations"], 2):
                c19.do(g, q, r, None)
        elif op in ("part", "update"):
            p = g.build_part() if op == "part" else g.update_part()
            rd = lambda p=p: sorted_verts(p)
            V = rd()
            kept.append(("part_kept", rd, V))
            # the part stands where the model says: its vertices in the gear's own frame do not depend on the history
            L = np.round(((V - md.pos) @ md.R) @ rotz(md.ang), 12)
            key = ("local", id(g))
            first = [k for k in kept if k[0] == key]
            if first:
                mon.le("part_follows", c15.setdist(L, first[0][2]), 1e-6 * (1 + np.abs(L).max()), op=op, step=step)
            else:
                kept.append((key, None, L))
                r_max = float(np.hypot(L[:, 0], L[:, 1]).max())
                if not g.cone_angle and not g.inside_teeth:
                    mon.near("part_follows", r_max, float(g.addendum_radius), 1e-3 * float(g.addendum_radius), op=op)
        for k, (gg_, m) in enumerate(zip(G, MD)):
            ce, O, an, sc = pose(gg_)
            s = 1 + np.abs(m.pos).max()
            mon.near("pose_model", ce, m.pos, 1e-12 * s, op=op, step=step, gear=k, kind=kind)
            mon.near("pose_model", O, m.R, 1e-12, op=op, step=step, gear=k, kind=kind)
            mon.near("pose_model", an, m.ang, 1e-12 * (1 + abs(m.ang)), op=op, step=step, gear=k, kind=kind)
    for k, (g, m) in enumerate(zip(G, MD)):
        f = m.fresh()
        a, b = c19.full(g), c19.full(f)
        mon.near("boundary_model", a, b, 1e-9 * (1 + np.abs(b).max()), gear=k, kind=kind)
        if k == int(c["ops"][0][1] * len(G)) and int(g.number_of_teeth) < 40:
            z = float(g.p2z(0.4))
            t = np.linspace(0, 1, 23)
            a, b = np.asarray(g.gearcore.boundary_at_z(z, continuous=True)(t), float), np.asarray(f.gearcore.boundary_at_z(z, continuous=True)(t), float)
            mon.near("boundary_model", a, b, 1e-9 * (1 + np.abs(b).max()), gear=k, kind=kind)
        for q in ("center_point_bottom", "center_point_top", "center"):
            mon.near("reported_model", np.asarray(getattr(g, q), float), np.asarray(getattr(f, q), float), 1e-9 * (1 + np.abs(m.pos).max() + float(g.z_height)), what=q)
        for q in ("pitch_radius", "addendum_radius", "dedendum_radius", "z_height"):
            mon.near("reported_model", float(getattr(g, q)), float(getattr(f, q)), 1e-9 * (1 + float(g.pitch_radius)), what=q)
    for lab, rd, num in kept:
        if rd is not None:
            mon.near(lab, rd(), num, 0.0, kind=kind)


def sorted_verts(p):
    V = c15.verts(p)
    return V[np.lexsort(np.round(V, 7).T)]
