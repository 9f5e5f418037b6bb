"""P15: self-collisions and distances report the true geometry of enabled pairs."""
import itertools
import json
import os
import shutil
import tempfile

import numpy as np
import placo
import robots as rb
from engine import Facet, Violation, Discard, close, check, raises

RULE = "A case is a random robot carrying spheres, boxes and cylinders, a configuration and a choice of enabled pairs; each reported pair is checked with witness points and separating-plane (support function) certificates computed from the specification; non-trivial when there is a colliding pair, or a pair closer than 5 cm."
TOL = 2e-4


class Shape:
    def __init__(self, ge, T):
        self.k, self.size, self.T = ge.kind, [float(x) for x in ge.size], T @ ge.T()

    def support(self, n):
        """max over the shape of n.x"""
        l = self.T[:3, :3].T @ n
        base = n @ self.T[:3, 3]
        if self.k == "sphere":
            return base + self.size[0] * np.linalg.norm(n)
        if self.k == "box":
            return base + sum(abs(l[i]) * self.size[i] / 2 for i in range(3))
        return base + self.size[0] * np.hypot(l[0], l[1]) + abs(l[2]) * self.size[1] / 2

    def project(self, p, e=0.0):
        """Nearest point of the shape shrunk by e."""
        l = self.T[:3, :3].T @ (p - self.T[:3, 3])
        if self.k == "sphere":
            n = np.linalg.norm(l)
            r = self.size[0] - e
            l = l * min(1.0, r / n) if n > 0 else l
        elif self.k == "box":
            h = np.array(self.size) / 2 - e
            l = np.clip(l, -h, h)
        else:
            n = np.hypot(l[0], l[1])
            r = self.size[0] - e
            if n > r:
                l = np.array([l[0] * r / n, l[1] * r / n, l[2]])
            h = self.size[1] / 2 - e
            l[2] = min(max(l[2], -h), h)
        return self.T[:3, :3] @ l + self.T[:3, 3]

    def outside(self, p):
        return float(np.linalg.norm(p - self.project(p)))


def truth(A, B):
    """("apart", lower bound of the distance) with a separating plane, or ("deep", 0): the two shapes shrunk by TOL share a point."""
    x = 0.5 * (A.T[:3, 3] + B.T[:3, 3])
    for _ in range(400):
        a = A.project(x, TOL)
        b = B.project(a, TOL)
        if np.linalg.norm(a - b) < 1e-9:
            return "deep", 0.0
        if np.linalg.norm(b - x) < 1e-12:
            break
        x = b
    d = np.linalg.norm(a - b)
    if d > 1e-7:
        n = (b - a) / d
        gap = -B.support(-n) - A.support(n)
        if gap > 0:
            return "apart", gap
    return "unsure", 0.0


def layout(spec, r):
    """Geometry objects in the order of the model: (name, link, Geom), and the moving joint they follow."""
    follow = {}
    up = {j.child: j for j in spec.joints}
    for l in spec.links:
        k = l.name
        while k in up and up[k].kind == "fixed":
            k = up[k].parent
        follow[l.name] = up[k].name if k in up else "root_joint"
    objs = []
    for ob in r.collision_model.geometryObjects:
        link, k = ob.name.rsplit("_", 1)
        objs.append((ob.name, link, spec.link(link).geoms[int(k)]))
    want = sorted(f"{l.name}_{k}" for l in spec.links for k in range(len(l.geoms)))
    check("objects", sorted(o[0] for o in objs) == want, f"{[o[0] for o in objs]} {want}")
    return objs, follow


def default_pairs(objs, follow):
    return {frozenset((i, j)) for i, j in itertools.combinations(range(len(objs)), 2) if follow[objs[i][1]] != follow[objs[j][1]]}


def verify(g, r, spec, objs, follow, pairs, q):
    m = r.model
    F = spec.fk(rb.base_T(q), rb.values(spec, r, q))
    S = [Shape(o[2], F[o[1]]) for o in objs]
    D = list(r.distances())
    got = [frozenset((d.objA, d.objB)) for d in D]
    check("pairs", len(got) == len(set(got)) and set(got) == pairs, lambda: f"distance pairs {[tuple(p) for p in got]} want {[tuple(p) for p in pairs]}")
    C = list(r.self_collisions(False))
    coll = {frozenset((c.objA, c.objB)): c for c in C}
    check("collision-unique", len(coll) == len(C))
    near = False
    for d in D:
        A, B = S[d.objA], S[d.objB]
        key = frozenset((d.objA, d.objB))
        names = f"{objs[d.objA][0]} {objs[d.objB][0]}"
        for parent, o in ((d.parentA, d.objA), (d.parentB, d.objB)):
            check("parent", m.names[parent] == follow[objs[o][1]], f"{m.names[parent]} {objs[o]}")
        kind, gap = truth(A, B)
        near = near or gap < 0.05
        if kind == "deep":
            check("collision-missed", key in coll, f"{names} share a point (distance {d.min_distance})")
            check("distance-positive", d.min_distance <= TOL, f"{names} {d.min_distance}")
        elif kind == "apart" and gap > TOL:
            check("collision-false", key not in coll, f"{names} are {gap} apart")
            pa, pb = np.array(d.pointA), np.array(d.pointB)
            check("witness-a", A.outside(pa) < TOL, f"{names}: point A {pa} is {A.outside(pa)} out of its body")
            check("witness-b", B.outside(pb) < TOL, f"{names}: point B {pb} is {B.outside(pb)} out of its body")
            close("witness-distance", np.linalg.norm(pa - pb), d.min_distance, atol=TOL, msg=names)
            check("distance", gap - TOL <= d.min_distance, f"{names}: {d.min_distance} but a plane separates them by {gap}")
            n = (pb - pa) / np.linalg.norm(pb - pa)
            sep = -B.support(-n) - A.support(n)
            if d.min_distance > 5 * TOL:
                close("minimal", sep, d.min_distance, atol=5 * TOL, msg=f"{names} nearest points are not the nearest")
    for key, c in coll.items():
        check("collision-pair", key in pairs)
        check("collision-names", c.bodyA == objs[c.objA][0] and c.bodyB == objs[c.objB][0], f"{c.bodyA} {c.bodyB}")
        check("collision-parents", m.names[c.parentA] == follow[objs[c.objA][1]] and m.names[c.parentB] == follow[objs[c.objB][1]])
        p = np.array(c.get_contact(0))
        raises("contact-index", lambda: c.get_contact(g.choice([-1, 1000, 1 << 20])))
        A, B = S[c.objA], S[c.objB]
        check("contact-point", A.outside(p) < 0.06 and B.outside(p) < 0.06, f"{p} {A.outside(p)} {B.outside(p)}")
    first = list(r.self_collisions(True))
    check("stop-at-first", len(first) == min(1, len(C)) and all((c.objA, c.objB) == (C[0].objA, C[0].objB) for c in first), f"{len(first)} {len(C)}")
    g.nt(near or bool(C))
    g.cls("colliding" if C else "free")
    return D


def gen(g):
    return rb.gen_robot(g, max_joints=5, geoms=True, reach=0.15)


def f_default(g):
    spec = gen(g)
    flags = g.choice([0, 0, 0, rb.COLL_AS_VISUAL, rb.IGNORE_COLL])
    r = rb.make(spec, flags)
    objs, follow = layout(spec, r)
    pairs = default_pairs(objs, follow) if flags != rb.IGNORE_COLL else set()
    for _ in range(g.small(1, 3)):
        q = rb.gen_q(g, r)
        r.state.q = q
        if g.boolean():
            r.update_kinematics()
        verify(g, r, spec, objs, follow, pairs, q)
    g.note(robot=spec.describe(), shapes=len(objs), flags=flags)


def f_files(g):
    spec = gen(g)
    d = tempfile.mkdtemp(prefix="verif-coll-")
    try:
        entries, want_fn, invalid = [], [], None
        # the object order of the model, read from a robot without pairs
        probe = rb.make(spec, rb.IGNORE_COLL)
        objs, follow = layout(spec, probe)
        links = sorted({o[1] for o in objs})
        if len(links) < 2:
            raise Discard
        pairs = set()
        for _ in range(g.small(0, 6)):
            if g.boolean():
                i, j = g.integer(0, len(objs) - 1), g.integer(0, len(objs) - 1)
                if i == j:
                    continue
                entries.append([i, j])
                pairs.add(frozenset((i, j)))
            else:
                a, b = g.choice(links), g.choice(links)
                if a == b:
                    continue
                entries.append([a, b])
                pairs |= {frozenset((i, j)) for i in range(len(objs)) for j in range(len(objs)) if objs[i][1] == a and objs[j][1] == b}
        bad = None
        if g.boolean(0.2):
            bad = g.choice([["nope", links[0]], [links[0], "nope"], [0, links[0]], [len(objs) + 3, 0], [1.5, 2.5]])
            entries.append(bad)
        mode = g.choice(["load", "directory", "file"])
        with open(d + "/collisions.json", "w") as f:
            json.dump(entries, f)
        with open(d + "/robot.urdf", "w") as f:
            f.write(spec.urdf())
        g.note(entries=entries, mode=mode, objects=[o[0] for o in objs])
        g.cls(mode, "bad" if bad else "good")

        fl = g.choice([0, 0, rb.COLL_AS_VISUAL])

        def make():
            with rb.quiet():
                if mode == "directory":
                    return placo.RobotWrapper(d, fl)
                if mode == "file":
                    return placo.RobotWrapper(d + "/robot.urdf", fl)
                r = rb.make(spec, g.choice([0, rb.IGNORE_COLL]))
                r.load_collision_pairs(d + "/collisions.json")
                return r
        if bad is not None:
            raises("bad-pair", make, f"entry {bad}")
            g.nt(True)
            return
        raises("missing-file", lambda: probe.load_collision_pairs(d + "/none.json"))
        r = make()
        q = rb.gen_q(g, r)
        rb.set_q(r, q)
        verify(g, r, spec, objs, follow, pairs, q)
        g.nt(bool(pairs))
    finally:
        shutil.rmtree(d)


FACETS = [
    Facet("default", f_default, 900, 20000, "a colliding pair, or one closer than 5 cm"),
    Facet("pairs-file", f_files, 600, 12000, "a pairs file with at least one valid pair, or an invalid entry"),
]
