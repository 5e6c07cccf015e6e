"""Racks: the vertices, volume and placement of the built solid against the textbook rack; meshing against the profile of the real gear.
Oracle: own trapezoid model, compared with the vertices of the solid; polygon intersection while sliding the rack along the gear."""
import math
import numpy as np
from ..core import Skip
from ..geom import *
from ..meshlib import *
from .. import gen

PROP = "C08"
TECHNIQUE = "runtime monitoring: solid-versus-model monitor and sliding-contact interference monitor for racks"
RULE = ("Case = rack (straight, helical or herringbone, with fillets or not), pose, gear, direction, offset. "
        "Non-trivial = the built solid was compared with the model; with a gear also at least one sliding phase.")
COUNT = {"quick": 300, "thorough": 4000}
REQUIRED = ["model_vertices_present", "solid_vertices_on_model", "one_valid_solid", "volume", "no_interference", "contact_both_flanks", "helical", "herringbone", "even_count", "odd_count",
            "fillet", "meshed", "moved_gear", "offset_shift", "tip_fillet_radius", "root_fillet_radius", "profile_shift"]


def draw(r, i, tier):
    kind = ["straight", "helical", "herringbone", "straight"][i % 4]
    mesh = r.random() < 0.7
    return dict(kind=kind, n=r.choice([1, 2, 3, 4, 5, 8, 11, 16]) if not mesh else r.choice([5, 6, 7, 8, 9]), m=gen.module(r), alpha=gen.pa(r), ha=r.choice([1.0, 1.0, 0.9, 0.8]), hd=r.choice([1.2, 1.2, 1.25, 1.4]),
                bl=r.choice([0, 0, 0.02, 0.1]), height=round(r.choice([0.5, 1.0, 3.0]) * r.uniform(0.8, 1.3), 3), beta=round(r.choice([-1, 1]) * r.uniform(0.1, 0.7), 3) if kind != "straight" else 0.0,
                tf=r.choice([0, 0, 0.1]), rf=r.choice([0, 0, 0.1, 0.2]), pos=gen.vec(r), rot=gen.rot(r), offset=r.choice([0, 0, 1, -2, 0.5, round(r.uniform(-2, 2), 3)]),
                mesh=mesh, N=r.randint(12, 60), x=r.choice([0, 0, 0.3, -0.2]), gpos=gen.vec(r), grot=gen.rot(r), gang=gen.angle(r), phi=gen.direction_in_plane(r), ph=round(r.random(), 3), anchor=r.choice([0, 0.5]))


def corpus(tier):
    import random
    out = []
    for s in range(16):
        c = draw(random.Random(f"c08{s}"), s, tier)
        if s == 3:
            c.update(rot=[0.5, 0.25, 0.5], mesh=False)
        if s < 3:
            c.update(mesh=True, gpos=[0, 0, 0], grot=None, gang=0, phi=-PI / 2, offset=0)
        out.append(c)
    # orientations singular for Euler angles
    for v in ([0.5, 0.0, 0.5], [0.5, 0.125, 0.125], [0.0, 0.0, 0.25], [1.0, 0.0, 0.75], [0.5, 0.375, 0.375]):
        out.append(dict(out[3], rot=v, kind="straight", beta=0.0, mesh=False))
        out.append(dict(out[1], rot=v, mesh=False))
    return out


def sizes(c):
    cb = math.cos(c["beta"])
    return dict(mt=c["m"] / cb, ha=c["ha"] * cb, hd=c["hd"] * cb, ta=math.tan(c["alpha"]) / cb)


def outline(c, k=None):
    """corner points per tooth, transverse, module 1: list of (x, y) from one end to the other (tooth side)"""
    s = sizes(c)
    n = c["n"] if k is None else k
    y0 = (0.5 if n % 2 == 0 else 0.0) - (n - 1) / 2
    out = []
    for i in range(n):
        yc = (y0 + i) * PI
        w_a, w_d = PI / 4 - s["ta"] * s["ha"] - c["bl"], PI / 4 + s["ta"] * s["hd"] - c["bl"]
        out += [(-s["hd"], yc - PI / 2), (-s["hd"], yc - w_d), (s["ha"], yc - w_a), (s["ha"], yc + w_a), (-s["hd"], yc + w_d), (-s["hd"], yc + PI / 2)]
    return out


def full(c):
    o = outline(c)
    b = -sizes(c)["hd"] - 1
    return [(b, o[0][1])] + o + [(b, o[-1][1])]


def run(c, mon):
    import gggears as gg
    s = sizes(c)
    wa = PI / 4 - s["ta"] * s["ha"] - c["bl"]
    wd = PI / 2 - (PI / 4 + s["ta"] * s["hd"] - c["bl"])
    if wa < 0.12 or wd < 0.1:
        raise Skip("pointed rack")
    if c["tf"] and wa < 0.3 or c["rf"] and wd < 1.3 * c["rf"] + 0.02:
        raise Skip("fillet does not fit")
    m, mt = c["m"], s["mt"]
    kw = dict(number_of_teeth=c["n"], height=c["height"] * m, pressure_angle=c["alpha"], module=m, root_fillet=c["rf"], tip_fillet=c["tf"], addendum_coefficient=c["ha"],
              dedendum_coefficient=c["hd"], backlash=c["bl"])
    if c["pos"] and not c["mesh"]:
        kw.update(position=np.array(c["pos"], float), orientation=np.eye(3) if c["rot"] is None else rand_rot(c["rot"]), offset=c["offset"])
    if c["kind"] == "straight":
        rack = gg.InvoluteRack(**kw)
    else:
        rack = gg.HelicalRack(helix_angle=c["beta"], herringbone=c["kind"] == "herringbone", **kw)
    gear = None
    if c["mesh"]:
        gk = dict(number_of_teeth=c["N"], module=m, pressure_angle=c["alpha"], profile_shift=c["x"], addendum_coefficient=c["ha"], dedendum_coefficient=max(c["hd"], c["ha"] + 0.15),
                  height=c["height"] * m, z_anchor=c["anchor"])
        if c["kind"] != "straight":
            gk.update(helix_angle=c["beta"], herringbone=c["kind"] == "herringbone")
            gk["z_anchor"] = 0
        gear = make(dict(cls="SpurGear" if c["kind"] == "straight" else "HelicalGear", kw=gk, pos=c["gpos"], rot=c["grot"], angle=c["gang"]))
        gp = pose(gear)
        dr = in_plane_dir(gear, c["phi"])
        rack.mesh_to(gear, target_dir=dr)
        off0 = float(rack.offset)
        P0, R0 = np.array(rack.position, float), np.array(rack.orientation, float)
        # a direction that leaves the plane of the gear counts by its part in that plane
        rack.mesh_to(gear, target_dir=unit(dr + 0.4 * math.sin(7 * c["phi"]) * gp[1][:, 2]))
        mon.near("direction_projected", [np.abs(P0 - rack.position).max() / m, np.abs(R0 - rack.orientation).max(), rack.offset - off0], 0.0, 1e-8)
        rack.mesh_to(gear, target_dir=dr, offset=c["offset"])
        mon.near("offset_shift", (rack.offset - off0), c["offset"], 1e-9)
        mon.near("offset_keeps_place", [np.abs(P0 - rack.position).max() / m, np.abs(R0 - rack.orientation).max()], 0.0, 1e-9)
        q = pose(gear)
        mon.true("gear_unchanged", all(np.array_equal(a, b) for a, b in zip(gp, q)))
        mon.cover("meshed", "moved_gear" if c["grot"] else "unrotated_gear", *(["profile_shift"] if c["x"] else []))
        want = gp[0] + dr * (gear.pitch_radius + c["x"] * m)
        mon.near("pitch_line_tangent", (np.asarray(rack.position, float) - want) / m, np.zeros(3), 1e-7)
        mon.near("teeth_point_to_gear", np.asarray(rack.orientation, float)[:, 0], -dr, 1e-9)
        mon.near("rack_axis", np.asarray(rack.orientation, float)[:, 2], gp[1][:, 2], 1e-9)
        pos, R, off = np.asarray(rack.position, float), np.asarray(rack.orientation, float), float(rack.offset)
    else:
        pos, R, off = np.array(c["pos"], float), (np.eye(3) if c["rot"] is None else rand_rot(c["rot"])), c["offset"]
    part = rack.build_part()
    mon.cover(c["kind"], "even_count" if c["n"] % 2 == 0 else "odd_count", *(["fillet"] if c["tf"] or c["rf"] else []))
    mon.true("one_valid_solid", part.is_valid and len(part.solids()) == 1, n=len(part.solids()))
    # solid in rack coordinates (module 1, transverse)
    V = np.array([tuple(v.center()) for v in part.vertices()])
    L = (V - pos) @ R / mt - np.array([0, off * PI, 0])
    h = c["height"] * m / mt
    tb = math.tan(c["beta"])
    levels = [(0.0, 0.0), (h, -h * tb)] if c["kind"] != "herringbone" else [(0.0, 0.0), (h / 2, -h / 2 * tb), (h, 0.0)]
    poly = Polygon(full(c))
    ok = np.zeros(len(L), bool)
    for z, dy in levels:
        at = np.abs(L[:, 2] - z) < 1e-6
        q = L[at][:, :2] - [0, dy]
        mon.true("section_present", at.sum() >= 4 * c["n"] + 2, z=z, count=int(at.sum()))
        if not c["tf"] and not c["rf"]:
            if len(q):
                mon.le("solid_vertices_on_model", shapely.distance(shapely.points(q), poly.exterior), 1e-6, z=z)
            want = [p for p in full(c)]
            corners = [want[0], want[-1]] + [p for i, p in enumerate(outline(c)) if i % 6 in (1, 2, 3, 4)]
            d = [np.min(np.linalg.norm(q - p, axis=1)) if len(q) else 9.0 for p in corners]
            mon.le("model_vertices_present", d, 1e-6, z=z)
        ok |= at
    mon.true("no_other_vertices", ok.all())
    area = poly.area
    n = c["n"]
    def corner(r, turn):   # area between a sharp corner of the given turning angle and its fillet
        return r * r * (math.tan(turn / 2) - turn / 2)
    turn = PI / 2 - math.atan(s["ta"])
    area += -2 * n * corner(c["tf"], turn) + 2 * n * corner(c["rf"], turn)
    mon.near("volume", part.volume / mt ** 3 / (area * h), 1.0, 1e-6)
    if (c["tf"] or c["rf"]) and c["kind"] == "straight":
        rad = sorted(round(e.radius / mt, 6) for e in part.edges() if "CIRCLE" in str(e.geom_type))
        for name, val in (("tip_fillet_radius", c["tf"]), ("root_fillet_radius", c["rf"])):
            if val:
                mon.true(name, sum(abs(x - val) < 1e-6 for x in rad) >= 4 * n, radii=rad[:6], want=val, n=n)
    if gear is None:
        return
    # sliding contact with the real gear profile
    g = InvoluteSpec(c["N"], math.atan(s["ta"]), c["x"] * math.cos(c["beta"]), s["ha"], max(c["hd"], c["ha"] + 0.15) * math.cos(c["beta"]))
    if g.undercut_excess() > 1.0 or g.tip_point_radius() < g.ra + 0.02:
        raise Skip("gear outside domain")
    gapr = s["hd"] - s["ha"]
    if gapr < 0.05:
        raise Skip("no clearance")
    M = pose(gear)
    off = off - c["offset"] + round(c["offset"])      # a fractional offset leaves the mesh on purpose
    for z in ([0.0] if not c["beta"] else [0.0, 0.3 * h, h]):
        dy = -z * tb if c["kind"] != "herringbone" else -(h / 2 - abs(h / 2 - z)) * tb
        pr, pts = slice_ref(gear, z, 60)
        w = applyT(slice_gear(gear, z, 60), gear.gearcore.transform)
        q = (w - pos) @ R / mt
        mon.near("same_plane", q[:, 2], np.full(len(q), z), 1e-6)
        G = clean(Polygon(dedup(q[:, :2], 1e-8)))
        if not mon.true("simple_profile", G.is_valid):
            return
        K = affinity.translate(Polygon(full(c)), 0, off * PI + dy)
        C = tuple((M[0] - pos) @ R[:, :2] / mt)
        undercut = g.form_radius() is None
        base = affinity.translate(Polygon(full(dict(c, n=11))), 0, off * PI + dy - round(off + dy / PI) * PI)
        for j in range(4):
            th = 2 * PI / c["N"] * ((j + c["ph"]) / 4 - 0.5)
            # the gear turns by th about its centre at x = -rp: the pitch point moves by rp*th in rack y
            a = affinity.rotate(G, th, origin=C, use_radians=True)
            sl = -(c["N"] / 2) * th     # gear centre lies on the +x side of the rack line
            for name, B in (("no_interference", affinity.translate(base, 0, sl)), ("no_interference", affinity.translate(K, 0, sl))):
                mon.le(name, overlap(a, B), 1e-5, phase=j, z=z)
            if c["bl"] == 0 and not undercut and j < 2 and not (c["tf"] or c["rf"]):
                for sgn in (1, -1):
                    mon.le("contact_both_flanks", -overlap(a, affinity.translate(base, 0, sl + sgn * 0.004)), -2e-5, phase=j, z=z, side=sgn)
