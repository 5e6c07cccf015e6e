"""Independent geometry used by the oracles (own arithmetic, nothing from gggears)."""
import numpy as np, math
import shapely
from shapely.geometry import Polygon, LineString
from shapely import affinity

PI = math.pi


def rotz(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])


def rot_axis(axis, a):
    k = np.asarray(axis, float)
    k = k / np.linalg.norm(k)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(a) * K + (1 - math.cos(a)) * K @ K


def rand_rot(seed):
    """Deterministic rotation matrix from three numbers in [0,1)."""
    u1, u2, u3 = seed
    q = np.array([math.sqrt(1 - u1) * math.sin(2 * PI * u2), math.sqrt(1 - u1) * math.cos(2 * PI * u2),
                  math.sqrt(u1) * math.sin(2 * PI * u3), math.sqrt(u1) * math.cos(2 * PI * u3)])
    x, y, z, w = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def applyT(P, T):
    """gear transform: rotate by angle about z, then orientation, scale, shift (own arithmetic)."""
    P = np.asarray(P, float)
    M = np.asarray(T.orientation, float) @ rotz(float(getattr(T, "angle", 0.0)))
    return float(T.scale) * (P @ M.T) + np.asarray(T.center, float)


def pose(gear):
    """Snapshot of placement (center, orientation, angle) as plain arrays."""
    t = gear.gearcore.transform
    return (np.array(t.center, float), np.array(t.orientation, float), float(t.angle), float(t.scale))


def set_pose(gear, center=None, orientation=None, angle=None):
    t = gear.gearcore.transform
    if center is not None:
        t.center = np.array(center, float)
    if orientation is not None:
        t.orientation = np.array(orientation, float)
    if angle is not None:
        t.angle = float(angle)


def sample(curve, n=40):
    """Points of a curve or chain, piece by piece (so corners are hit)."""
    out = []
    for c in leaves(curve):
        if not getattr(c, "active", True):
            continue
        out.append(np.asarray(c(np.linspace(0, 1, n)), float))
    return np.vstack(out) if out else np.zeros((0, 3))


def leaves(curve):
    cs = curve.get_curves()
    if not isinstance(cs, (list, tuple)):
        return [cs]
    out = []
    for c in cs:
        out.extend(leaves(c) if isinstance(c.get_curves(), (list, tuple)) else [c])
    return out


def piece_knots(curve):
    """normalized arc-length positions of the joints of a chain"""
    L = np.array([float(c.length) for c in leaves(curve) if getattr(c, "active", True)])
    return np.concatenate([[0.0], np.cumsum(L) / L.sum()]) if L.sum() > 0 else np.array([0.0, 1.0])


def tooth_parts(gear, z=None, n=60):
    """Reference-space sampled pieces of one pitch, in order."""
    z = gear.gearcore.z_vals[0] if z is None else z
    pr = gear.gearcore.curve_gen_at_z(z)
    parts = {}
    for name in ("rd_curve", "tooth_curve", "ra_curve", "tooth_curve_mirror"):
        c = getattr(pr, name)
        if not getattr(c, "active", True):
            parts[name] = np.zeros((0, 3))
            continue
        if name == "tooth_curve_mirror":
            k = 1 - piece_knots(pr.tooth_curve)[::-1]
            s = np.unique(np.concatenate([np.linspace(k[i], k[i + 1], n) for i in range(len(k) - 1)]))
            parts[name] = np.asarray(c(np.clip(s, 0, 1)), float)
            continue
        parts[name] = sample(c, max(8, n // 4) if name in ("rd_curve", "ra_curve") else n)
    return pr, parts


def slice_ref(gear, z, n=60):
    """(profile, one pitch as Nx3 polyline) in reference space (before the slice transform)."""
    pr, parts = tooth_parts(gear, z, n)
    return pr, np.vstack([parts[k] for k in ("rd_curve", "tooth_curve", "ra_curve", "tooth_curve_mirror")])


def slice_gear(gear, z, n=60, teeth=None):
    """Boundary of a slice in the gear's own (moving) frame, reference scale, with the slice transform."""
    pr, pts = slice_ref(gear, z, n)
    N = int(gear.number_of_teeth)
    ks = range(N) if teeth is None else teeth
    pitch = 2 * PI / N
    ring = np.vstack([pts @ rotz(k * pitch).T for k in ks])
    return applyT(ring, pr.transform)


def slice_world(gear, z, n=60, teeth=None):
    return applyT(slice_gear(gear, z, n, teeth), gear.gearcore.transform)


def dedup(p, eps=1e-9):
    keep = np.ones(len(p), bool)
    keep[1:] = np.linalg.norm(np.diff(p, axis=0), axis=1) > eps
    return p[keep]


def to_frame(P, center, R):
    """world -> frame coordinates"""
    return (np.asarray(P) - center) @ np.asarray(R)


def hausdorff_pts_to_line(P, line):
    """max distance of the points to a polyline (2D shapely)."""
    ls = LineString(line)
    return max(shapely.distance(shapely.points(P[:, :2]), ls))


def inv(a):
    return math.tan(a) - a


def inv_inverse(y):
    """solve tan a - a = y, a in [0, pi/2)"""
    if y <= 0:
        return 0.0
    lo, hi = 0.0, PI / 2 - 1e-12
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if math.tan(mid) - mid < y:
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)


class InvoluteSpec:
    """Textbook transverse involute gear, in units of its (transverse) module."""

    def __init__(self, N, alpha=20 * PI / 180, x=0.0, ha=1.0, hd=1.2, backlash=0.0, inside=False):
        self.N, self.alpha, self.x, self.ha, self.hd, self.bl, self.inside = N, alpha, x, ha, hd, backlash, inside
        self.rp = N / 2
        self.rb = self.rp * math.cos(alpha)
        self.ra = self.rp + ha + x
        self.rf = self.rp - hd + x
        self.half = PI / (2 * N) + x * math.tan(alpha) / self.rp - (-1 if inside else 1) * backlash / self.rp  # half thickness angle at pitch

    def half_angle(self, r):
        """half tooth (solid side for external naming) angle at radius r on the involute"""
        a = math.acos(min(1.0, self.rb / r))
        return self.half + inv(self.alpha) - inv(a)

    def tip_point_radius(self):
        """radius where both flanks meet"""
        a = inv_inverse(self.half + inv(self.alpha))
        return self.rb / math.cos(a)

    def undercut_excess(self):
        """how far the rack tip line passes below the undercut limit (modules); > ~1 eats the whole flank"""
        return (self.hd - self.x) - self.rp * math.sin(self.alpha) ** 2

    def form_radius(self):
        """lowest involute radius cut by the generating rack (no undercut) or None when undercut"""
        l = self.rp * math.sin(self.alpha) - (self.hd - self.x) / math.sin(self.alpha)
        if l < 0:
            return None
        return math.hypot(self.rb, l)


def external_distance(s1, s2, m=1.0, backlash=0.0):
    """operating centre distance of an external pair (m: module); backlash along line of action (length)"""
    rb = (s1.rb + s2.rb)
    # half angles at base
    h1 = s1.half + inv(s1.alpha)
    h2 = s2.half + inv(s2.alpha)
    # rb1*h1 + rb2*h2 - rb2*pi/N2 ... = (rb1+rb2)*inv(aw) - backlash/2
    y = (s1.rb * h1 + s2.rb * h2 - PI / s2.N * s2.rb + backlash / m / 2) / rb
    aw = inv_inverse(y)
    return rb / math.cos(aw) * m, aw


def internal_distance(pin, ring, m=1.0, backlash=0.0):
    rb = ring.rb - pin.rb
    hp = pin.half + inv(pin.alpha)
    hr = ring.half + inv(ring.alpha)
    y = (ring.rb * hr - pin.rb * hp - backlash / m / 2) / rb   # play comes from bringing the centres together
    aw = inv_inverse(y)
    return rb / math.cos(aw) * m, aw


def poly_gear(P2, inside=False, r_out=None):
    """Solid region polygon of a closed gear boundary (2D points around its own centre at origin)."""
    P2 = dedup(np.asarray(P2)[:, :2])
    pg = Polygon(P2)
    if inside:
        out = shapely.Point(0, 0).buffer(r_out, 256)
        return out.difference(pg)
    return pg


def clean(pg, tol=1e-6):
    """Drop numerical specks (joint noise) of a polygon; an essentially self-crossing polygon stays invalid."""
    if pg.is_valid:
        return pg
    q = pg.buffer(0)
    if q.geom_type == "MultiPolygon":
        q = max(q.geoms, key=lambda g: g.area)
    return q if q.geom_type == "Polygon" and abs(q.area - pg.area) <= tol * max(1.0, pg.length) ** 1 and q.area > 0 else pg


def poly_sector(P, closing):
    """Polygon from an open polyline closed through the given point(s)."""
    P = dedup(np.asarray(P)[:, :2])
    return Polygon(np.vstack([P, np.atleast_2d(closing)[:, :2]]))


def overlap(a, b):
    try:
        return a.intersection(b).area
    except Exception:
        return a.buffer(0).intersection(b.buffer(0)).area


def unit(v):
    v = np.asarray(v, float)
    return v / np.linalg.norm(v)


def angdiff(a, b, period=2 * PI):
    d = (a - b) % period
    return min(d, period - d)


class RackTrochoid:
    """Path of the generating rack's tip corner relative to the gear (module 1, tooth on +x, lower flank y<0)."""

    def __init__(self, spec, pitch_mid=True):
        h = spec.hd - spec.x
        y = -(spec.rp * spec.half + h * math.tan(spec.alpha))
        mid = -PI / 2 if spec.N else y          # middle of the gap on the rack line (half a pitch)
        x = spec.rp - h
        if pitch_mid and y < mid:               # pointed rack tooth: the corner is where both flanks meet
            x = spec.rp - (-(mid) - spec.rp * spec.half) / math.tan(spec.alpha)
            y = mid
        self.rp, self.c = spec.rp, np.array([x, y])

    def __call__(self, phi):
        phi = np.asarray(phi, float)
        x, y = self.c[0] + 0 * phi, self.c[1] + self.rp * phi
        return np.stack([x * np.cos(phi) + y * np.sin(phi), -x * np.sin(phi) + y * np.cos(phi)], -1)

    def lowest(self):
        """roll angle at which the corner is nearest to the gear axis"""
        return -self.c[1] / self.rp

    def branch(self, n=4000, r_max=None):
        """dense points of the branch facing the lower flank of the tooth, from the lowest point outwards"""
        p0 = self.lowest()
        out = None
        for sgn in (1, -1):
            P = self(p0 + sgn * np.linspace(0, 2.2 * math.sqrt(abs(self.c[0]) + 1) / self.rp, n))
            a = np.arctan2(P[:, 1], P[:, 0])
            if a[n // 4] > a[0]:               # moves towards the tooth centre line
                out = P
        return out if r_max is None else out[np.hypot(out[:, 0], out[:, 1]) <= r_max]


def undercut_radius(spec):
    """radius at which the rack-corner trochoid leaves the involute (None: not undercut)"""
    if spec.form_radius() is not None:
        return None
    T = RackTrochoid(spec).branch(20000)
    r = np.hypot(T[:, 0], T[:, 1])
    a = np.abs(np.arctan2(T[:, 1], T[:, 0]))
    best = None
    for k in range(1, len(r)):
        if r[k] <= spec.rb:
            continue
        d = a[k] - spec.half_angle(r[k])
        if d >= 0 and k > 5 and best is not None and best < 0:
            return float(r[k])
        best = d
    return float("nan")


def dist_to_polyline(Q, T):
    """distance of each point of Q (n,3) to the polyline T (m,3), exact per segment"""
    Q, T = np.asarray(Q, float), np.asarray(T, float)
    a, d = T[:-1], np.diff(T, axis=0)
    l2 = np.maximum((d * d).sum(1), 1e-300)
    u = np.clip(((Q[:, None, :] - a[None]) * d[None]).sum(2) / l2, 0, 1)
    return np.linalg.norm(Q[:, None, :] - (a[None] + u[:, :, None] * d[None]), axis=2).min(1)
