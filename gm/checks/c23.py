"""Chains: random list- and geometry-operations on chains (nested, with inactive members) mirrored on a plain Python list model of independent
member copies; positions, lengths, joints, indices and continuity are compared after every operation."""
import math, copy
import numpy as np
from ..core import Skip
from ..geom import *
from .. import curvegen as cg

PROP = "C23"
TECHNIQUE = "runtime monitoring: model-based (sequential list model) monitor over random operation sequences on curve chains"
RULE = "Case = a chain of random members and a sequence of list/geometry operations. Non-trivial = at least two operations were executed and every one was followed by a full comparison with the model."
COUNT = {"quick": 500, "thorough": 9000}
OPS = ["append", "extend", "insert", "setitem", "delitem", "pop", "reverse", "start", "end", "both", "cut", "copy", "purge", "start_keep", "end_keep", "both_keep", "insert_neg", "cut_keep", "deactivate", "activate"]
REQUIRED = ["length", "position", "portions", "s_index", "list_view", "start_end", "continuity", "closed", "array_vs_single", "source_untouched", "nested", "inactive", "fillet_radius", "fillet_tangent", "fillet_length", "fillet_ends",
            "joint_points", "flatten", "bridged", "members", "returns_to_start", "iterate_nested_loops"] + ["op:" + o for o in OPS]


def draw(r, i, tier):
    if i % 7 == 6:
        n = r.randint(2, 5)
        P, a, d = [np.array([0.0, 0.0, 0.0])], r.uniform(-3, 3), []
        for _ in range(n + 1):
            P.append(P[-1] + r.uniform(3, 6) * np.array([math.cos(a), math.sin(a), 0]))
            a += r.choice([-1, 1]) * r.uniform(0.3, 1.9)
        return dict(kind="fillet", P=np.round(P, 4).tolist(), rho=round(r.uniform(0.1, 1.0), 3), idx=r.randrange(n), rot=None if r.random() < 0.5 else [r.random(), r.random(), r.random()], c=[round(r.uniform(-3, 3), 2) for _ in range(3)])
    n = r.randint(1, 5)
    items = []
    for _ in range(n):
        if r.random() < 0.2:
            items.append(dict(chain=[dict(curve=cg.draw(r), active=(q < 0.7 or r.random() < 0.3 and q < 0.85)) for q in [r.random()] for _ in range(r.randint(1, 3))]))
        else:
            items.append(dict(curve=cg.draw(r, r.choice(["line", "arc", "line", "involute", "bezier"])), active=r.random() > 0.2))
    if not any(x.get("active", True) if "curve" in x else any(y["active"] for y in x["chain"]) for x in items):
        items[0] = dict(curve=cg.draw(r, "line"), active=True)
    ops = [[r.choice(OPS), round(r.uniform(0.03, 0.97), 4), round(r.uniform(0.03, 0.97), 4), cg.draw(r, r.choice(["line", "arc", "bezier"])), r.random() < 0.85] for _ in range(r.randint(3, 8))]
    return dict(kind="ops", items=items, ops=ops, connect=r.random() < 0.4, s=[round(r.random(), 4) for _ in range(5)])


def corpus(tier):
    import random
    out = []
    for k, op in enumerate(OPS):
        c = draw(random.Random(f"c23{k}"), k if k % 7 != 6 else k + 1, tier)
        for o in c["ops"]:
            o[0] = op
        out.append(c)
    for rho in (0.2, 0.5, 1.0):
        out.append(dict(kind="fillet", P=[[0, 0, 0], [4, 0, 0], [4, 4, 0], [8, 4, 0]], rho=rho, idx=0, rot=None, c=[0, 0, 0]))
        out.append(dict(kind="fillet", P=[[0, 0, 0], [4, 0, 0], [4, 4, 0], [8, 4, 0]], rho=rho, idx=1, rot=[.2, .4, .9], c=[1, 0, 2]))
    return out


OUT_ = np.array([0.0, 0.0, 1.0])


class Node:
    """model member: a private copy of a curve, or a list of nodes"""

    def __init__(self, curve=None, kids=None, active=True):
        self.curve, self.kids, self._a = curve, kids, active

    @property
    def active(self):
        if self.kids is not None:
            return self._a and any(k.active for k in self.kids)
        return self._a

    def deactivate(self):
        self._a = False

    def length(self):
        if not self.active:
            return 0.0
        return float(self.curve.length) if self.kids is None else sum(k.length() for k in self.kids)

    def at(self, s):
        if self.kids is None:
            return np.asarray(self.curve(float(s)), float)
        return seq_at(self.kids, s)

    def reverse(self):
        if self.kids is None:
            self.curve.reverse()
        else:
            self.kids.reverse()
            for k in self.kids:
                k.reverse()

    def trim(self, s0, s1):
        if self.kids is None:
            if s0 is not None and s1 is not None:
                self.curve.set_start_and_end_on(s0, s1)
            elif s0 is not None:
                self.curve.set_start_on(s0)
            else:
                self.curve.set_end_on(s1)
        else:
            self.kids = seq_trim(self.kids, s0, s1, False)


def locate(items, s):
    L = np.array([x.length() for x in items])
    c = np.concatenate([[0], np.cumsum(L) / L.sum()])
    act = [i for i, l in enumerate(L) if l > 0]
    for i in act:
        if s <= c[i + 1] + 1e-15 or i == act[-1]:
            return i, (s - c[i]) / (c[i + 1] - c[i])


def seq_at(items, s):
    i, u = locate(items, s)
    return items[i].at(u)


def seq_trim(items, s0, s1, keep):
    a = locate(items, s0) if s0 is not None else None
    b = locate(items, s1) if s1 is not None else None
    if a and b and a[0] == b[0]:
        items[a[0]].trim(a[1], b[1])
    else:
        if a:
            items[a[0]].trim(a[1], None)
        if b:
            items[b[0]].trim(None, b[1])
    lo, hi = (a[0] if a else 0), (b[0] + 1 if b else len(items))
    if keep:
        for k, x in enumerate(items):
            if k < lo or k >= hi:
                x.deactivate()
        return items
    return items[lo:hi]


def near_joint(items, s, eps=2e-3):
    L = np.array([x.length() for x in items])
    c = np.concatenate([[0], np.cumsum(L) / L.sum()])
    return np.min(np.abs(c - s)) < eps


def member(d, at=None):
    import gggears.curve as crv
    if "chain" in d:
        cs = [cg.build(x["curve"])[0] for x in d["chain"]]
        for cv, x in zip(cs, d["chain"]):
            cv.active = x["active"]
        return crv.CurveChain(*cs), Node(kids=[Node(curve=c.copy(), active=x["active"]) for c, x in zip(cs, d["chain"])])
    c, *_ = cg.build(d["curve"])
    if not d.get("active", True):
        c.active = False
    n = Node(curve=c.copy(), active=d.get("active", True))
    return c, n


def fillet(c, mon):
    import gggears.curve as crv
    P = np.array(c["P"], float)
    R = np.eye(3) if c["rot"] is None else rand_rot(c["rot"])
    Q = P @ R.T + np.array(c["c"])
    ch = crv.CurveChain(*[crv.LineCurve(Q[k], Q[k + 1]) for k in range(len(Q) - 1)])
    i, rho = c["idx"], c["rho"]
    a, b = unit(Q[i + 1] - Q[i]), unit(Q[i + 2] - Q[i + 1])
    phi = math.acos(np.clip(a @ b, -1, 1))
    tr = rho * math.tan(phi / 2)
    if tr > 0.6 * min(np.linalg.norm(Q[i + 1] - Q[i]), np.linalg.norm(Q[i + 2] - Q[i + 1])) or phi > 2.2:
        raise Skip("fillet too large for the corner")
    L0 = float(ch.length)
    before = np.asarray(ch(np.linspace(0, 1, 11)), float)
    out = ch.fillet_at_index(rho, i)
    mon.near("source_untouched", np.asarray(ch(np.linspace(0, 1, 11)), float), before, 0.0)
    arcs = [x for x in out.get_curves() if isinstance(x, crv.ArcCurve)]
    if not mon.true("fillet_arc", len(arcs) == 1, n=len(arcs)):
        return
    arc = arcs[0]
    mon.near("fillet_radius", float(arc.radius), rho, 1e-5)
    T0, T1 = Q[i + 1] - a * tr, Q[i + 1] + b * tr
    mon.near("fillet_tangent", [np.asarray(arc(0.0), float), np.asarray(arc(1.0), float)], [T0, T1], 2e-4)
    # its middle lies on the corner's side, at the right distance
    mid = np.asarray(arc(0.5), float)
    mon.near("fillet_tangent", np.linalg.norm(mid - Q[i + 1]), rho / math.cos(phi / 2) - rho, 2e-4)
    mon.near("fillet_length", float(out.length), L0 - 2 * tr + rho * phi, 1e-3)
    mon.near("fillet_ends", [np.asarray(out(0.0), float), np.asarray(out(1.0), float)], [Q[0], Q[-1]], 1e-9)
    S = np.asarray(out(np.linspace(0, 1, 400)), float)
    mon.le("fillet_continuous", np.linalg.norm(np.diff(S, axis=0), axis=1), 1.02 * float(out.length) / 399 + 5e-4)


def run(c, mon):
    import gggears.curve as crv
    if c["kind"] == "fillet":
        return fillet(c, mon)
    pairs = [member(d) for d in c["items"]]
    if c["connect"]:
        # make consecutive straight members meet
        last = None
        for k, (cv, n) in enumerate(pairs):
            if isinstance(cv, crv.LineCurve) and last is not None and cv.active:
                cv.p0 = np.array(last)
                cv.update_lengths()
                pairs[k] = (cv, Node(curve=cv.copy()))
            if cv.active:
                last = np.asarray(cv(1.0), float)
    ch = crv.CurveChain(*[p for p, _ in pairs])
    raw = [p for p, _ in pairs]
    M = [n for _, n in pairs]
    mon.cover(*(["nested"] if any("chain" in d for d in c["items"]) else []), *(["inactive"] if not all(d.get("active", True) for d in c["items"]) else []))

    def check(tag):
        L = sum(x.length() for x in M)
        mon.near("length", float(ch.length), L, 1e-9 * (1 + L), tag=tag)
        mon.true("list_view", len(ch) == len(M) == ch.num_curves, tag=tag, n=(len(ch), len(M)))
        it = [x for x in ch]
        mon.true("list_view", len(it) == len(M) and all(x is ch[k] for k, x in enumerate(it)) and (not it or ch[-1] is it[-1]), tag=tag)
        # nested iteration over the same chain visits all pairs
        mon.true("iterate_nested_loops", sum(1 for _ in ch for _ in ch) == len(M) ** 2, tag=tag)
        # every member, switched off or not, is where the model has it
        def members(seq, nodes):
            for x, nd in zip(seq, nodes):
                if nd.kids is None:
                    a, b = np.array([np.asarray(x(s), float) for s in (0.0, 0.35, 1.0)]), np.array([nd.at(s) for s in (0.0, 0.35, 1.0)])
                    mon.near("members", a, b, 1e-8 * (1 + np.abs(b).max()), tag=tag, active=nd.active)
                elif len(x) == len(nd.kids):
                    members(list(x), nd.kids)
        members(it, M)
        mon.true("active_flags", list(ch.active_list) == [x.active for x in M] and bool(ch.active) == any(x.active for x in M), tag=tag)
        if L <= 0:
            return False
        mon.near("portions", np.asarray(ch.get_length_portions(), float), np.concatenate([[0], np.cumsum([x.length() for x in M]) / L]), 1e-9, tag=tag)
        ss = [0.0, 1.0] + [s for s in c["s"] if not near_joint(M, s)]
        P = np.array([np.asarray(ch(float(s)), float) for s in ss])
        W = np.array([seq_at(M, s) for s in ss])
        sc = 1 + np.abs(W).max()
        mon.near("position", P, W, 1e-8 * sc, tag=tag)
        mon.near("array_vs_single", np.asarray(ch(np.array(ss)), float), P, 1e-12 * sc, tag=tag)
        for s in ss[2:]:
            i, u = ch.get_s_index(s)
            j, v = locate(M, s)
            mon.true("s_index", i == j, tag=tag, s=s)
            mon.near("s_index", float(u), v, 1e-8, tag=tag)
        act = [k for k, x in enumerate(M) if x.active]
        mon.near("start_end", P[:2], [M[act[0]].at(0.0), M[act[-1]].at(1.0)], 1e-8 * sc, tag=tag)
        # joints: approached from both sides
        por = np.asarray(ch.get_length_portions(), float)
        for k in act[:-1]:
            t0, t1 = ch.get_t_for_index(k)
            mon.near("joint_points", [t0, t1], [por[k], por[k + 1]], 1e-12)
            eps = 1e-9
            mon.near("joint_points", np.asarray(ch(float(t1 - eps)), float), M[k].at(1.0), 1e-6 * sc + 1e-7 * L, tag=tag)
        n = len(M)
        want = []
        for k in range(n):
            a, b = M[k], M[(k + 1) % n]
            want.append(not a.active or not b.active or np.linalg.norm(a.at(1.0) - b.at(0.0)) < 1e-7)
        amb = any(M[k].active and M[(k + 1) % n].active and 1e-12 < np.linalg.norm(M[k].at(1.0) - M[(k + 1) % n].at(0.0)) < 1e-3 for k in range(n))
        if not amb:
            got = [bool(x) for x in ch.continuity_list]
            mon.true("continuity", got == want, got=got, want=want, tag=tag)
            mon.true("continuity", bool(ch.is_continuous) == all(want[:-1]), tag=tag)
            mon.true("closed", bool(ch.is_closed) == (all(want[:-1]) and np.linalg.norm(W[0] - W[1]) < 1e-7), tag=tag)
        fl = ch.get_curves()
        if all(x.kids is None for x in M) and any(x.active for x in M):
            br = ch.get_curves(lerp_inactive=True)
            mon.true("bridged", len(br) == len(M) and all(bool(q.active) == x.active for q, x in zip(br, M)), tag=tag)
            for k, x in enumerate(M):
                if x.active:
                    mon.near("bridged", [np.asarray(br[k](0.0), float), np.asarray(br[k](1.0), float)], [x.at(0.0), x.at(1.0)], 1e-9 * sc, tag=tag)
                elif M[k - 1].active and M[(k + 1) % n].active:
                    mon.near("bridged", [np.asarray(br[k](0.0), float), np.asarray(br[k](1.0), float)], [M[k - 1].at(1.0), M[(k + 1) % n].at(0.0)], 1e-9 * sc, tag=tag, k=k)
        mon.near("flatten", sum(float(x.length) for x in fl if x.active), L, 1e-9 * (1 + L), tag=tag) if all(x.kids is None or x._a for x in M) else None
        mon.true("flatten", all(not isinstance(x, crv.CurveChain) for x in fl), tag=tag)
        return True

    if not check("fresh"):
        return
    # a path that returns to its start but is interrupted on the way is not closed
    A, B = np.array([1.0, 0, 0]), np.array([0, 2.0, 0])
    gap = 0.5 + c["s"][0]
    g = crv.CurveChain(crv.LineCurve(A, B), crv.LineCurve(B + gap * OUT_, A))
    mon.true("returns_to_start", not g.is_closed and not g.is_continuous)
    g = crv.CurveChain(crv.LineCurve(A, B), crv.LineCurve(B, A * (1 + gap)), crv.LineCurve(A * (1 + gap), A))
    mon.true("returns_to_start", bool(g.is_closed) and bool(g.is_continuous))
    for op, u, v, nd, act in c["ops"]:
        n = len(M)
        idx = min(int(u * n), n - 1) if n else 0
        if op in ("append", "extend", "insert", "insert_neg", "setitem"):
            cv, nn = member(dict(curve=nd, active=act))
            if op == "append":
                ch.append(cv)
                M.append(nn)
            elif op == "extend":
                cv2, nn2 = member(dict(curve=dict(nd), active=True))
                ch.extend([cv, cv2])
                M.extend([nn, nn2])
            elif op == "insert":
                ch.insert(idx, cv)
                M.insert(idx, nn)
            elif op == "insert_neg":
                ch.insert(-1, cv)
                M.insert(-1, nn)
            else:
                if n == 0 or (not act and sum(x.active for x in M) <= 1):
                    continue
                ch[idx] = cv
                M[idx] = nn
        elif op in ("delitem", "pop"):
            if n < 2 or (M[idx].active and sum(x.active for x in M) <= 1):
                continue
            if op == "delitem":
                del ch[idx]
                del M[idx]
            else:
                q = ch[idx]
                mon.true("pop_returns", ch.pop(idx) is q)
                M.pop(idx)
        elif op in ("deactivate", "activate"):
            # members (whole nested chains included) switched off and on again: switched off means no length, not part of the path
            on = op == "activate"
            if n == 0 or (not on and sum(x.active for x in M) - M[idx].active < 1):
                continue
            ch[idx].active = on
            M[idx]._a = on
        elif op == "purge":
            ch.del_inactive_curves()
            M = [x for x in M if x.active]
        elif op == "copy":
            old = ch
            ch = ch.copy()
            P0 = np.asarray(ch(np.linspace(0, 1, 5)), float)
            if old.curves:
                old.reverse()
                old.curves.clear()
            mon.near("source_untouched", np.asarray(ch(np.linspace(0, 1, 5)), float), P0, 0.0)
        elif op == "reverse":
            ch.reverse()
            M.reverse()
            for x in M:
                x.reverse()
        else:
            a, b = min(u, v), max(u, v)
            if b - a < 0.05 or near_joint(M, a) or near_joint(M, b):
                continue
            keep = op.endswith("_keep")
            o = op.split("_")[0]
            pa, pb = seq_at(M, a), seq_at(M, b)
            if o == "start":
                ch.set_start_on(a, preserve_inactive_curves=keep)
                M = seq_trim(M, a, None, keep)
                mon.near("keeps_point", np.asarray(ch(0.0), float), pa, 1e-7 * (1 + np.abs(pa).max()))
            elif o == "end":
                ch.set_end_on(b, preserve_inactive_curves=keep)
                M = seq_trim(M, None, b, keep)
                mon.near("keeps_point", np.asarray(ch(1.0), float), pb, 1e-7 * (1 + np.abs(pb).max()))
            elif o == "both":
                ch.set_start_and_end_on(a, b, preserve_inactive_curves=keep)
                M = seq_trim(M, a, b, keep)
                mon.near("keeps_point", [np.asarray(ch(0.0), float), np.asarray(ch(1.0), float)], [pa, pb], 1e-7 * (1 + np.abs(pa).max() + np.abs(pb).max()))
            elif o == "cut":
                P0 = np.asarray(ch(np.linspace(0, 1, 7)), float)
                x, y = ch.cut(a, preserve_inactive_curves=keep) if keep else ch.cut(a)
                mon.true("cut_keeps_members", not keep or len(x) == len(y) == len(M), n=(len(x), len(y), len(M)))
                mon.near("source_untouched", np.asarray(ch(np.linspace(0, 1, 7)), float), P0, 0.0)
                M2 = copy.deepcopy(M)
                if v > u:
                    ch, M = x, seq_trim(M, None, a, keep)
                    mon.near("cut_pieces", np.asarray(y(0.0), float), pa, 1e-7 * (1 + np.abs(pa).max()))
                else:
                    ch, M = y, seq_trim(M, a, None, keep)
                    mon.near("cut_pieces", np.asarray(x(1.0), float), pa, 1e-7 * (1 + np.abs(pa).max()))
        mon._ev("op:" + op)
        if not check(op):
            return
