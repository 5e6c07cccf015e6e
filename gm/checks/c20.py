"""Isolation of live gears: random interleavings of mutating operations on a population of gears (some of them copies), with every other gear,
every caller-owned array and the library's constants compared bit by bit after each step; faults raised inside the library at the k-th internal
call of builds and queries, after which the gear must be unchanged and usable."""
import math, random, sys
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen
from . import c15, c19, c04

PROP = "C20"
TECHNIQUE = "runtime monitoring: isolation monitor over interleaved operations on several live gears, copies and shared arrays, plus in-library fault injection"
RULE = ("Case = a population of gears with a random operation interleaving, a copy/original pair with edits to one side, or a fault injected at the k-th library call. "
        "Non-trivial = at least one mutating operation (or raised fault) was followed by a comparison of everything it must not touch.")
COUNT = {"quick": 120, "thorough": 3500}
CASE_TIMEOUT = 150
REQUIRED = ["others_unchanged", "caller_arrays", "constants_unchanged", "copy_identical", "original_unchanged", "copy_unchanged", "fault_raised", "usable_after_fault", "unchanged_after_fault", "bad_call_rejected",
            "others_sections", "population", "copy", "fault", "op:move", "op:mesh", "op:reset", "op:inplace", "op:turn", "op:copy", "op:param", "op:build", "op:adapt", "fault_build", "fault_query", "fault_mesh"] + gen.FAMILIES


def draw(r, i, tier):
    kind = ["population", "copy", "fault", "population"][i % 4]
    fam = gen.FAMILIES[(i // 4) % 13]
    if kind == "population":
        k = c04.KINDS[(i // 4) % len(c04.KINDS)]
        s = c04.pair_spec(r, k)
        ops = [(r.choice(["move", "turn", "mesh", "reset", "inplace", "copy", "query", "build", "adapt", "mesh"]), r.random(), r.random(), r.random()) for _ in range(r.randint(5, 9))]
        return dict(kind=kind, s=s, k=k, ops=ops, place=gen.placement(r), default_center=r.random() < 0.5)
    s = gen.family_spec(r, fam, height=1.0)
    s["kw"]["number_of_teeth"] = min(s["kw"]["number_of_teeth"], 14 if "ring" not in fam else 32)
    if kind == "copy":
        s["kw"]["crowning"] = r.choice([0, 50, 100])
    return dict(kind=kind, s=s, place=gen.placement(r), side=r.random() < 0.5, edit=r.randrange(6), what=r.choice(["build", "wire", "boundary", "circles", "copy", "mesh", "build", "update"]),
                at=round(r.random(), 4), r=r.randrange(10**6))


def corpus(tier):
    import random as rd
    out = []
    for e in range(6):
        for sd in (False, True):
            c = draw(rd.Random(f"c20{e}{sd}"), 1 + 4 * e, tier)
            c.update(edit=e, side=sd)
            c["s"]["kw"]["crowning"] = 100 if e % 2 else 0
            out.append(c)
    for k, w in enumerate(["build", "wire", "update", "mesh"]):
        c = draw(rd.Random(f"c20f{k}"), 2, tier)
        c.update(what=w)
        out.append(c)
    return out


class Fault(Exception):
    pass


class Tracer:
    """counts calls of functions defined in the library; raises at the k-th"""

    def __init__(self, k=None):
        self.k, self.n = k, 0

    def __call__(self, frame, event, arg):
        if event == "call" and "gggears" in frame.f_code.co_filename and frame.f_code.co_name != "<lambda>":
            self.n += 1
            if self.k is not None and self.n == self.k:
                sys.setprofile(None)
                raise Fault(frame.f_code.co_name)

    def __enter__(self):
        sys.setprofile(self)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


def population(c, mon):
    import gggears as gg
    mon.cover("population")
    arrs = []

    def owned(x):
        a = np.array(x, float)
        arrs.append((a, a.tobytes()))
        return a

    pop = []
    for j, sp in enumerate(c["s"] + [c["s"][0]]):
        kw = dict(sp["kw"])
        if not c["default_center"]:
            kw["center"] = owned(c["place"]["pos"])
        pop.append(getattr(gg, sp["cls"])(**kw))
    cyc = c["s"][0]["cls"] == "CycloidGear"
    K = c19.consts()
    # objects built with default arguments own their arrays
    import gggears.gggears_base_classes as bc
    for cls in (bc.TransformData, bc.Transform, bc.GearTransformData, bc.GearTransform, lambda: bc.ConicData().transform, lambda: gg.gggears_core.Gear(tooth_generator=None).transform):
        a, b = cls(), cls()
        a.center += np.array([1.5, -2.0, 0.25])
        a.orientation[:] = rot_axis([1, 0, 0], 0.3)
        for x in (b, cls()):
            mon.near("defaults_owned", np.vstack([x.center, x.orientation]), np.vstack([np.zeros(3), np.eye(3)]), 0.0, cls=type(a).__name__)
    now = c19.consts()
    mon.true("constants_unchanged", now == K, what="defaults")
    roles = [0, 1, 0]
    for op, u, v, w in c["ops"]:
        i = int(u * len(pop))
        g = pop[i]
        before = [c19.cheap(x) for x in pop]
        touched = {i}
        r = random.Random(int(v * 1e9))
        if op == "move":
            g.center = np.array(gen.vec(r))
            g.gearcore.transform.orientation = rand_rot([r.random(), r.random(), r.random()])
        elif op == "inplace":
            g.center += np.array([1.5, -2.0, 0.25])
        elif op == "turn":
            g.angle += w * 5 - 2.5
        elif op == "reset":
            if not hasattr(g, "reset_location"):
                continue
            g.reset_location()
            g.center += np.array([3.0, 0, 0])
            g.gearcore.transform.orientation[:] = rot_axis([1, 0, 0], 0.3)
        elif op == "copy":
            k = g.copy()
            k.center += np.array([2.0, 1.0, 0])
            k.angle += 1
            k.gearcore.transform.orientation[:] = rot_axis([0, 1, 0], 0.3)
            touched = set()
            pop.append(k)
            roles.append(roles[i])
            before.append(c19.cheap(k))
        elif op == "mesh":
            cand = [x for x in range(len(pop)) if roles[x] != roles[i]]
            if not cand:
                continue
            j = r.choice(cand)
            d = owned(in_plane_dir(pop[j], r.uniform(-3, 3)))
            g.mesh_to(pop[j], target_dir=d)
            # results are the moved gear's own arrays
            st = c19.cheap(pop[j])
            g.center += np.array([0.5, 0, 0])
            g.gearcore.transform.orientation[0, 0] += 1e-3
            mon.true("others_unchanged", c19.cheap(pop[j]) == st, op="mesh then in-place edit", k=c["k"])
        elif op == "adapt":
            if not cyc:
                continue
            cand = [x for x in range(len(pop)) if roles[x] != roles[i]]
            if not cand:
                continue
            j = r.choice(cand)
            # documented to change the generating radii of both, nothing else
            pb = [pose(g), pose(pop[j])]
            g.adapt_cycloid_radii(pop[j])
            for x, y in zip(pb, [pose(g), pose(pop[j])]):
                mon.true("adapt_keeps_pose", all(np.array_equal(u_, v_) for u_, v_ in zip(x, y)), k=c["k"])
            touched = {i, j}
        elif op == "query":
            g.addendum_radius, g.radii_data_top
            touched = set()
        elif op == "build":
            if w < 0.75 or "bevel" in c["k"] or "spiral" in c["k"]:
                g.build_boundary_wire(0.5)
            else:
                g.build_part()
            touched = set()
        mon._ev("op:" + op)
        for x in range(len(pop)):
            if x not in touched:
                mon.true("others_unchanged", c19.cheap(pop[x]) == before[x], op=op, acted=i, changed=x, k=c["k"])
        for a, b in arrs:
            mon.true("caller_arrays", a.tobytes() == b, op=op, k=c["k"])
        if c19.consts() != K:
            mon.fail("constants_unchanged", op=op, k=c["k"])
            return
        mon._ev("constants_unchanged")
    # sections of all gears still those of fresh ones
    for x, g in enumerate(pop[:3]):
        if cyc:
            continue
        f = make((c["s"] + [c["s"][0]])[x])
        set_pose(f, *pose(g)[:3])
        mon.true("others_sections", np.array_equal(c19.full(f), c19.full(g)), which=x, k=c["k"])


def edit(g, e, r):
    if e == 0:
        g.center += np.array([4.0, 5.0, 6.0])
        g.gearcore.transform.orientation[:] = rot_axis([1, 2, 3], 0.7)
        g.angle = 1.234
    elif e == 1:
        g.inputparam.crowning = 250
        g.inputparam.backlash = 0.08
        g.inputparam.z_anchor = 0.7
        g.inputparam.height = g.inputparam.height * 2
        g.calc_params()
    elif e == 2:
        g.inputparam.crowning = g.inputparam.crowning + 111
        g.inputparam.module = g.inputparam.module * 3
        g.inputparam.number_of_teeth = g.inputparam.number_of_teeth + 5
    elif e == 3:
        g.gearcore.z_vals += 0.5
        g.gearcore.transform.scale *= 2
        g.gearcore.tooth_param.num_teeth = 99
    elif e == 4:
        if not g.inside_teeth:
            g.mesh_to(g.copy(), target_dir=in_plane_dir(g, r.uniform(-3, 3)))
        if hasattr(g, "reset_location"):
            g.reset_location()
        g.center += np.array([4.0, 5.0, 6.0])
    elif e == 5:
        g.inputparam.addendum_coefficient *= 0.9
        if hasattr(g.inputparam, "pressure_angle"):
            g.inputparam.pressure_angle *= 1.1
        else:
            g.inside_cycloid_coefficient = 0.31
            g.outside_cycloid_coefficient = 0.33
        g.calc_params()
        g.center[:] = 7


def run(c, mon):
    if c["kind"] == "population":
        return population(c, mon)
    s = c["s"]
    fam = s["fam"]
    r = random.Random(c["r"])
    g = make(dict(cls=s["cls"], kw=s["kw"], **c["place"]))
    mon.cover(fam, c["kind"])
    st, fl = c19.cheap(g), c19.full(g)
    if c["kind"] == "copy":
        k = g.copy()
        mon.true("copy_identical", c19.cheap(k) == st and np.array_equal(c19.full(k), fl) and type(k) is type(g), fam=fam)
        a, b = (k, g) if c["side"] else (g, k)
        edit(a, c["edit"], r)
        mon._ev("op:param")
        mon.true("original_unchanged" if c["side"] else "copy_unchanged", c19.cheap(b) == st and np.array_equal(c19.full(b), fl), fam=fam, edit=c["edit"])
        w1 = c15.wire_pts(b.build_boundary_wire(0.5))
        t = make(dict(cls=s["cls"], kw=s["kw"], **c["place"]))
        mon.near("copy_wire", w1, c15.wire_pts(t.build_boundary_wire(0.5)), 1e-9 * (1 + np.abs(w1).max()), fam=fam, edit=c["edit"])
        return
    # faults
    other = None
    what = c["what"]
    if "bevel" in fam and what in ("build", "update") and c["r"] % 3:
        what = "wire"

    def call(x):
        if what == "build":
            return x.build_part()
        if what == "update":
            return x.update_part()
        if what == "wire":
            return x.build_boundary_wire(0.3)
        if what == "boundary":
            return x.gearcore.boundary_at_z(float(x.p2z(0.4)))
        if what == "circles":
            return x.radii_data_top, x.face_location_top
        if what == "copy":
            return x.copy()
        if what == "mesh":
            return x.mesh_to(tgt, target_dir=in_plane_dir(tgt, 0.7))

    if what == "mesh":
        if "ring" in fam:
            raise Skip("ring needs a pinion")
        tgt = make(dict(cls=s["cls"], kw=dict(s["kw"], number_of_teeth=s["kw"]["number_of_teeth"] + 5), pos=[1, 2, 3], rot=[.2, .4, .9], angle=0.3))
        ts = c19.cheap(tgt)
    d = g.copy()
    with Tracer() as t:
        call(d)
    total = t.n
    if total < 2:
        raise Skip("nothing to interrupt")
    K = c19.consts()
    for at in sorted({1 + int(c["at"] * (total - 1)), total, max(1, total // 2)} if what not in ("build", "update") else {1 + int(c["at"] * (total - 1))}):
        try:
            with Tracer(at):
                call(g)
            mon.cover("fault_not_reached")
        except Fault as e:
            mon._ev("fault_raised")
        mon.cover("fault_build" if what in ("build", "update") else "fault_mesh" if what == "mesh" else "fault_query")
        if what == "mesh":
            mon.true("unchanged_after_fault", c19.cheap(tgt) == ts, what=what, at=at, of=total, fam=fam)
        else:
            mon.true("unchanged_after_fault", c19.cheap(g) == st, what=what, at=at, of=total, fam=fam)
        if c19.consts() != K:
            mon.fail("constants_unchanged", op="fault")
            return
    # usable again, with the same result as an undisturbed gear
    res = call(g)
    if what == "mesh":
        p, q = pose(g), pose(d)
        mon.near("usable_after_fault", np.concatenate([p[0], p[1].ravel(), [p[2]]]), np.concatenate([q[0], q[1].ravel(), [q[2]]]), 1e-9, what=what, fam=fam)
    elif what in ("build", "update"):
        V, W = c15.verts(res), c15.verts(d.builder.part_transformed)
        mon.true("usable_after_fault", c15.setdist(V, W) < 1e-7 * (1 + np.abs(V).max()), what=what, fam=fam)
        mon.true("usable_after_fault", np.array_equal(c19.full(g), fl), what=what, fam=fam)
    else:
        mon.true("usable_after_fault", np.array_equal(c19.full(g), fl), what=what, fam=fam)
    # natural bad calls are rejected without touching the gear
    st2 = c19.cheap(g)
    n = 0
    for f in (lambda: g.mesh_to(None), lambda: g.mesh_to("gear"), lambda: g.mesh_to(g.copy(), target_dir=None), lambda: g.mesh_to(g.copy(), target_dir="up"),
              lambda: g.mesh_to(g.copy(), target_dir=np.zeros(2)), lambda: g.build_boundary_wire("x"), lambda: g.build_part(n_vert="many"), lambda: g.center_point_at_z("top")):
        try:
            f()
        except Exception:
            n += 1
            mon.true("bad_call_rejected", c19.cheap(g) == st2, which=n, fam=fam)
        else:
            set_pose(g, np.frombuffer(st2[0]), np.frombuffer(st2[1]).reshape(3, 3), st2[2])
