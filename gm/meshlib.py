"""Driving and observing pairs of real gears."""
import math
import numpy as np
from .geom import *
from shapely import affinity

PI = math.pi


def make(spec):
    """Construct a gear from {"cls","kw","pos","rot","angle"} through the public constructors."""
    import gggears as gg
    kw = dict(spec["kw"])
    cls = getattr(gg, spec["cls"])
    if spec.get("pos") is not None:
        kw["center"] = np.array(spec["pos"], float)
    if spec.get("angle") is not None:
        kw["angle"] = spec["angle"]
    g = cls(**kw)
    if spec.get("rot") is not None:
        g.gearcore.transform.orientation = rand_rot(spec["rot"])
    return g


def in_plane_dir(other, phi, tilt=0.0, length=1.0):
    """world direction at angle phi in the plane of the other gear"""
    R = np.asarray(other.gearcore.transform.orientation, float)
    d = np.array([math.cos(phi), math.sin(phi), tilt])
    return R @ d * length


class PlanarPair:
    """Two gear slices expressed in the plane of gear 2; rolls them against each other."""

    def __init__(self, g1, g2, z1, z2, n=60, width=4):
        c2, R2, a2, s2 = pose(g2)
        self.g1, self.g2 = g1, g2
        self.N1, self.N2 = int(g1.number_of_teeth), int(g2.number_of_teeth)
        self.in1, self.in2 = bool(g1.inside_teeth), bool(g2.inside_teeth)
        b1, K1 = self._blocks(g1, z1, n, c2, R2)
        b2, K2 = self._blocks(g2, z2, n, c2, R2)
        self.zspread = max(np.ptp(b1[..., 2]), np.ptp(b2[..., 2]))
        self.zgap = float(abs(b1[..., 2].mean() - b2[..., 2].mean()))
        self.C1, self.C2 = b1[..., :2].reshape(-1, 2).mean(axis=0), b2[..., :2].reshape(-1, 2).mean(axis=0)
        d = self.C2 - self.C1
        self.dist = float(np.linalg.norm(d))
        phi = math.atan2(d[1], d[0])
        # direction of the mesh zone seen from each centre
        if self.in2:      # gear1 inside ring gear2: contact away from centre 2
            p1, p2 = phi + PI, phi + PI
        elif self.in1:
            p1, p2 = phi, phi
        else:
            p1, p2 = phi, phi + PI
        self.s1 = self._sector(b1, self.C1, p1, self.N1, width, self.in1)
        self.s2 = self._sector(b2, self.C2, p2, self.N2, width, self.in2)
        self.s1, self.s2 = clean(self.s1), clean(self.s2)
        self.valid = self.s1.is_valid and self.s2.is_valid
        self.sign = 1 if (self.in1 or self.in2) else -1

    @staticmethod
    def _blocks(g, z, n, c2, R2):
        pr, pts = slice_ref(g, z, n)
        N = int(g.number_of_teeth)
        B = []
        for k in range(N):
            w = applyT(applyT(pts @ rotz(2 * PI * k / N).T, pr.transform), g.gearcore.transform)
            B.append(to_frame(w, c2, R2))
        return np.array(B), len(pts)

    @staticmethod
    def _sector(b, C, phi, N, width, inside):
        def ang(k):
            v = b[k][:, :2].mean(axis=0) - C
            return math.atan2(v[1], v[0])
        flip = 1 if ((ang(1) - ang(0)) % (2 * PI)) < PI else -1   # frame seen from the other side
        k0 = int(round(((phi - ang(0)) % (2 * PI)) / (2 * PI / N))) * flip
        w = min(width, (N - 1) // 2 if not inside else (N - 1) // 4)
        ks = [(k0 + j) % N for j in range(-w, w + 1)]
        if not inside and len(ks) >= N - 1:     # few teeth: the whole wheel
            return Polygon(dedup(np.vstack([b[k][:, :2] for k in range(N)]), 1e-7))
        P = np.vstack([b[k][:, :2] for k in ks])
        if inside:
            v0, v1 = P[0] - C, P[-1] - C
            rmax = np.linalg.norm(P - C, axis=1).max() * 1.3
            a0, a1 = math.atan2(v0[1], v0[0]), math.atan2(v1[1], v1[0])
            if flip > 0:
                da = (a1 - a0) % (2 * PI)
            else:
                da = -((a0 - a1) % (2 * PI))
            aa = a1 - da * np.linspace(0, 1, 60)
            clos = C + rmax * np.stack([np.cos(aa), np.sin(aa)], 1)
        else:
            clos = C[None, :]
        return poly_sector(P, clos)

    def overlap_at(self, th1, th2=None):
        """gear1 turned by th1 (about its centre, in the plane of gear 2), gear 2 by the gear ratio"""
        if th2 is None:
            th2 = self.sign * th1 * self.N1 / self.N2
        a = affinity.rotate(self.s1, th1, origin=tuple(self.C1), use_radians=True)
        b = affinity.rotate(self.s2, th2, origin=tuple(self.C2), use_radians=True)
        return overlap(a, b)
