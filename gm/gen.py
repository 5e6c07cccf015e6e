"""Case generators shared by the checks."""
import math
PI = math.pi


def teeth(r, lo=6, hi=160):
    k = r.random()
    if k < 0.35:
        return r.randint(max(lo, 6), min(hi, 17))
    if k < 0.8:
        return r.randint(max(lo, 12), min(hi, 60))
    return r.randint(max(lo, 40), hi)


def module(r):
    return r.choice([1.0, 0.3, 0.5, 2.0, 2.5, 7.0]) if r.random() < 0.7 else round(r.uniform(0.2, 12), 3)


def pa(r):
    return r.choice([20, 20, 14.5, 25, 17.5, 22.5, 28]) * PI / 180


def vec(r, s=20):
    return [round(r.uniform(-s, s), 3) for _ in range(3)]


def rot(r):
    """three numbers for geom.rand_rot; None = identity"""
    return None if r.random() < 0.3 else [r.random(), r.random(), r.random()]


def angle(r):
    return r.choice([0.0, 0.3, -1.1, 3.0, 17.5]) if r.random() < 0.4 else round(r.uniform(-7, 7), 4)


def direction_in_plane(r):
    """angle of the target direction in the other gear's plane"""
    return r.choice([0.0, PI / 2, PI, -PI / 2, 0.7]) if r.random() < 0.4 else round(r.uniform(-PI, PI), 4)


FAMILIES = ["spur", "ring", "helical", "helical_ring", "herring", "herring_ring", "bevel", "spiral_bevel", "cycloid", "cycloid_ring", "cycloid_bevel", "generic", "generic_ring"]


def family_spec(r, fam=None, fancy=True, big=False, height=None):
    """A constructor call of one gear family with sensible (foolproof) parameters. fancy: fillets, shifts, crowning ..."""
    fam = fam or r.choice(FAMILIES)
    m = module(r)
    kw = dict(number_of_teeth=r.randint(10, 24) if r.random() < 0.5 else r.randint(18, 90 if big else 45), module=m,
              height=round(m * (height or r.choice([1.0, 2.0, 3.5, 6.0])), 4))
    if r.random() < 0.5:
        kw["z_anchor"] = r.choice([0.5, 1.0, 0.25, -0.2, 1.3])
    if fam.startswith("cycloid"):
        cls = "CycloidGear"
        kw["inside_cycloid_coefficient"] = r.choice([0.5, 0.4, 0.3])
        kw["outside_cycloid_coefficient"] = r.choice([0.5, 0.4, 0.3])
        if fam == "cycloid_ring":
            kw.update(inside_teeth=True, number_of_teeth=kw["number_of_teeth"] + 15)
        if fam == "cycloid_bevel":
            kw.update(cone_angle=round(r.uniform(0.4, 2.2), 3))
        elif fancy and r.random() < 0.3:
            kw["helix_angle"] = round(r.uniform(-0.4, 0.4), 3)
    else:
        kw["pressure_angle"] = r.choice([20, 20, 25, 22.5, 17.5]) * PI / 180
        if fam in ("helical", "helical_ring", "herring", "herring_ring"):
            cls = "HelicalRingGear" if "ring" in fam[3:] and fam.endswith("_ring") else "HelicalGear"
            kw["helix_angle"] = round(r.choice([-1, 1]) * r.uniform(0.05, 0.7), 3)
            if fam.startswith("herring"):
                kw["herringbone"] = True
        elif fam in ("bevel", "spiral_bevel"):
            cls = "BevelGear"
            kw["cone_angle"] = round(r.uniform(0.4, 2.4), 3)
            kw["number_of_teeth"] = max(12, kw["number_of_teeth"])
            if fam == "spiral_bevel":
                kw["helix_angle"] = round(r.uniform(-0.5, 0.5), 3)
        elif fam == "ring":
            cls = "SpurRingGear"
            if r.random() < 0.4:
                kw["outside_ring_coefficient"] = r.choice([2.0, 3.0, 4.5])
        else:
            cls = "SpurGear" if fam == "spur" else "InvoluteGear"
            if fam == "generic_ring":
                kw.update(inside_teeth=True, enable_undercut=False, addendum_coefficient=1.2, dedendum_coefficient=1.0)
            if fam == "generic" and r.random() < 0.6:
                kw["helix_angle"] = round(r.uniform(-0.5, 0.5), 3)
        if fam.endswith("ring") and "bevel" not in fam:
            kw["number_of_teeth"] += 20
        if fancy and r.random() < 0.5 and "bevel" not in fam:
            kw["profile_shift"] = round(r.uniform(-0.1, 0.3), 3)
        if fancy and not fam.endswith("ring") and r.random() < 0.3:
            kw["enable_undercut"] = False
            kw["number_of_teeth"] = max(kw["number_of_teeth"], 24)
            kw["root_fillet"] = r.choice([0.0, 0.1, 0.2])
    if "bevel" in fam:
        # keep the face width well below the cone distance
        import math as _m
        R = kw["number_of_teeth"] / 2 / _m.sin(kw["cone_angle"] / 2)
        if "z_anchor" in kw:
            kw["z_anchor"] = min(1.0, max(0.0, kw["z_anchor"]))
        kw["height"] = round(m * min(kw["height"] / m, 0.3 * R), 4)
    if fancy:
        if r.random() < 0.3:
            kw["backlash"] = r.choice([0.02, 0.05, 0.1])
        if r.random() < 0.25:
            kw["crowning"] = r.choice([20, 60, 100])
        if r.random() < 0.25 and not fam.endswith("ring"):
            kw["tip_fillet"] = r.choice([0.05, 0.1])
    return dict(cls=cls, kw=kw, fam=fam)


def placement(r):
    return dict(pos=vec(r), rot=rot(r), angle=angle(r))
