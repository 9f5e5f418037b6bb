"""P50: the drawing helpers show exactly the geometry they are given, and nothing older."""
import contextlib
import importlib
import io
import os
import sys
import meshcat
import numpy as np
import pinocchio.visualize as pin_viz
import placo
import dyn
import robots as rb
import walk as wk
from engine import Facet, Violation, Discard, close, check, raises

sys.path.insert(0, "/repo/python")
from placo_utils import visualization as viz  # noqa: E402

RULE = "A case is a history of calls to the drawing helpers with a recording viewer; what the viewer then holds is compared with the geometry given last. Non-trivial when something was drawn again or removed, or when a contact force was drawn."


class Viewer:
    """A viewer that keeps what it is asked to show."""

    def __init__(self, store=None, path=()):
        self.store = {} if store is None else store
        self.path = path

    def url(self):
        return "recorded"

    def __getitem__(self, k):
        return Viewer(self.store, self.path + tuple(p for p in str(k).split("/") if p))

    def set_object(self, geometry, material=None):
        if material is None and hasattr(geometry, "geometry"):  # an object made of a geometry and its material
            kind, material, geometry = type(geometry).__name__, geometry.material, geometry.geometry
        else:
            kind = type(geometry).__name__
        old = self.store.get(self.path)
        self.store[self.path] = [kind, geometry, material, np.eye(4) if old is None else old[3]]

    def set_transform(self, T=None):
        T = np.array(np.eye(4) if T is None else T, float)
        if self.path in self.store:
            self.store[self.path][3] = T
        else:
            self.store[self.path] = [None, None, None, T]

    def delete(self):
        for p in [p for p in self.store if p[:len(self.path)] == self.path]:
            del self.store[p]

    def shown(self, *words):
        """Shapes under a node whose path has all of the words."""
        return [v for p, v in sorted(self.store.items()) if v[0] is not None and all(w in p for w in words)]

    def items(self):
        return [v for p, v in sorted(self.store.items()) if v[0] is not None]


class RobotViewer:
    """Stands for the robot display of pinocchio, which is not judged here."""

    def __init__(self, *models):
        pass

    def initViewer(self, *a, **kw):
        pass

    def loadViewerModel(self, *a, **kw):
        pass

    def display(self, q):
        pass


def fresh():
    """The module as just imported, with a recording viewer."""
    v = Viewer()
    meshcat.Visualizer = lambda *a, **kw: v
    pin_viz.MeshcatVisualizer = RobotViewer
    importlib.reload(viz)
    with contextlib.redirect_stdout(io.StringIO()):
        viz.get_viewer()
    return v


def ends(item):
    """The two ends of a cylinder (whose axis is y)."""
    h = item[1].height
    return (item[3] @ [0, -h / 2, 0, 1])[:3], (item[3] @ [0, h / 2, 0, 1])[:3]


def is_head(item):
    return item[0] == "Cylinder" and item[1].radiusTop == 0.0 and item[1].radiusBottom > 0


def arrow_of(tag, items, p, q, radius, color):
    """Two pieces: a shaft from p, and a head that ends at q."""
    check(f"{tag}-pieces", len(items) == 2 and sum(map(is_head, items)) == 1, lambda: f"{[i[0] for i in items]}")
    head = [i for i in items if is_head(i)][0]
    shaft = [i for i in items if not is_head(i)][0]
    a, b = ends(shaft)
    c, d = ends(head)
    L = np.linalg.norm(q - p)
    close(f"{tag}-start", a, p, atol=1e-7)
    close(f"{tag}-joined", b, c, atol=1e-7)
    for i in items:
        close(f"{tag}-axis", i[3][:3, :3].T @ i[3][:3, :3], np.eye(3), atol=1e-7)
    if L > 3 * radius + 1e-3:
        close(f"{tag}-tip", d, q, atol=1e-7)
    elif L > 1e-5:  # too short for a head: only its direction is right
        close(f"{tag}-direction", np.cross(b - a, (q - p) / L), np.zeros(3), atol=1e-7)
        check(f"{tag}-sense", (b - a) @ (q - p) > 0)
    check(f"{tag}-color", all(i[2].color == color for i in items))
    close(f"{tag}-radius", shaft[1].radiusTop, radius, atol=1e-12)


class Book:
    """What has been drawn last under each name."""

    def __init__(self, g):
        self.g = g
        self.v = fresh()
        self.last = {}
        self.again = 0

    def point3(self):
        return self.g.vec(3, -2, 2)

    def name(self):
        return self.g.choice(["a", "b", "c"])

    def put(self, kind, name, value):
        self.again += (kind, name) in self.last
        self.last[(kind, name)] = value

    def frame(self):
        n, T, s = self.name(), self.g.frame(), self.g.pos(0.1, 5)
        if self.g.boolean(0.3):
            s = 1.0
            viz.frame_viz(n, T)
        else:
            viz.frame_viz(n, T, scale=s)
        self.put("frame", n, (T, s))

    def point(self):
        n, p, r = self.name(), self.point3(), self.g.pos(1e-3, 0.5)
        col = self.g.integer(0, 0xFFFFFF)
        viz.point_viz(n, p, r, col)
        self.put("point", n, (p, r, col))

    def points(self):
        n, r = self.name(), self.g.pos(1e-3, 0.5)
        pts = [self.point3() for _ in range(self.g.integer(0, 5))]
        viz.points_viz(n, pts if self.g.boolean() else np.array(pts).reshape(-1, 3), r)
        self.put("points", n, (pts, r))

    def line(self):
        n = self.name()
        pts = np.array([self.point3() for _ in range(2 * self.g.integer(1, 3))])
        viz.line_viz(n, pts)
        self.put("line", n, pts)

    def path(self):
        n = self.name()
        pts = np.array([self.point3() for _ in range(self.g.integer(1, 5))])
        viz.path_viz(n, pts)
        self.put("path", n, pts)

    def cross(self):
        n, p, s = self.name(), self.g.vec(2, -2, 2), self.g.pos(0.01, 1)
        viz.cross_viz(n, p, s)
        self.put("cross", n, (p, s))

    def cylinder(self):
        n, p, L, r = self.name(), self.g.vec(2, -2, 2), self.g.pos(0.01, 2), self.g.pos(0.01, 1)
        viz.cylinder_viz(n, p, L, r)
        self.put("cylinder", n, (p, L, r))

    def arrow(self):
        n, p, r = self.name(), self.point3(), self.g.pos(1e-3, 0.05)
        q = p + self.g.unit() * self.g.choice([1e-7, 1e-3, 0.01, 0.1, 1.0, 3.0, 1.0])
        if self.g.boolean(0.2):  # along an axis of the world
            q = p + np.eye(3)[self.g.integer(0, 2)] * self.g.choice([-1.0, 1.0])
        col = self.g.integer(0, 0xFFFFFF)
        viz.arrow_viz(n, p, q, col, r)
        self.put("arrow", n, (p, q, r, col))

    def judge(self):
        v = self.v
        total = 0
        for (kind, n), w in self.last.items():
            if kind == "frame":
                T, s = w
                it = v.shown("frames", n)
                check("frame-pieces", len(it) == 3, f"{len(it)}")
                for k, col in enumerate((0xFF0000, 0x00FF00, 0x0000FF)):
                    one = [i for i in it if i[2].color == col]
                    check("frame-colors", len(one) == 1)
                    a, b = ends(one[0])
                    close("frame-origin", a, T[:3, 3], atol=1e-7)
                    close("frame-axis", b, T[:3, 3] + 0.1 * s * T[:3, k], atol=1e-7)
                total += 3
            elif kind == "point":
                p, r, col = w
                it = v.shown("point", n)
                check("point-pieces", len(it) == 1 and it[0][0] == "Sphere")
                close("point-place", it[0][3], rb.T_of(p=p), atol=1e-9)
                check("point-look", it[0][1].radius == r and it[0][2].color == col)
                total += 1
            elif kind == "points":
                pts, r = w
                it = v.shown("points", n)
                check("points-count", len(it) == len(pts), lambda: f"{len(it)} shown, {len(pts)} given")
                left = [i[3][:3, 3] for i in it]
                for p in pts:
                    d = [np.linalg.norm(p - x) for x in left]
                    check("points-place", len(d) and min(d) < 1e-9, f"{p} is not drawn")
                    left.pop(int(np.argmin(d)))
                check("points-look", all(i[0] == "Sphere" and i[1].radius == r for i in it))
                total += len(pts)
            elif kind == "line":
                it = v.shown("lines", n)
                check("line-pieces", len(it) == 1 and it[0][0] == "LineSegments")
                close("line", np.array(it[0][1].position).T, w, atol=1e-6)
                total += 1
            elif kind == "path":
                it = v.shown(f"path_{n}")
                check("path-count", len(it) == len(w) - 1, lambda: f"{len(it)} segments for {len(w)} points")
                segs = [np.array(i[1].position).T for i in it]
                for a, b in zip(w[:-1], w[1:]):
                    check("path-segment", any(np.allclose(x, [a, b], atol=1e-6) for x in segs), lambda: f"no segment from {a} to {b}")
                total += len(w) - 1
            elif kind == "cross":
                p, s = w
                it = [i for k in (1, 2) for i in v.shown("crosses", f"{n}_{k}")]
                check("cross-pieces", len(it) == 2 and all(i[0] == "LineSegments" for i in it))
                P = [np.array(i[1].position).T for i in it]
                for x in P:
                    close("cross-center", (x[0] + x[1]) / 2, p, atol=1e-7)
                    close("cross-size", np.abs(x[1] - x[0]), [2 * s, 2 * s], atol=1e-7)
                check("cross-crosses", abs(np.linalg.det(np.array([P[0][1] - P[0][0], P[1][1] - P[1][0]]))) > s * s)
                total += 2
            elif kind == "cylinder":
                p, L, r = w
                it = v.shown("cylinders", n)
                check("cylinder-pieces", len(it) == 1 and it[0][0] == "Cylinder")
                a, b = sorted(ends(it[0]), key=lambda x: x[2])
                close("cylinder-bottom", a, [p[0], p[1], 0.0], atol=1e-7)
                close("cylinder-top", b, [p[0], p[1], L], atol=1e-7)
                check("cylinder-radius", it[0][1].radiusTop == r and it[0][1].radiusBottom == r)
                total += 1
            else:
                p, q, r, col = w
                arrow_of("arrow", v.shown("arrows", n), p, q, r, col)
                total += 2
        check("nothing-else", len(v.items()) == total, lambda: f"{len(v.items())} shapes are shown, {total} were drawn")


def f_shapes(g):
    b = Book(g)
    log = []
    for _ in range(g.integer(1, 12)):
        op = g.choice([b.frame, b.point, b.points, b.line, b.path, b.cross, b.cylinder, b.arrow, b.points, b.path, b.arrow])
        op()
        log.append(op.__name__)
        b.judge()
    g.note(history=log)
    g.cls(*log)
    g.nt(b.again > 0)


def f_footsteps(g):
    """Footsteps and supports: one closed outline each, coloured by side, moved by the given transform."""
    v = fresh()
    p = wk.parameters(g)
    counts = []
    for _ in range(g.integer(1, 4)):
        planner = placo.FootstepsPlannerRepetitive(p)
        planner.configure(g.flt(-0.1, 0.1), g.flt(-0.05, 0.05), g.flt(-0.3, 0.3), g.integer(1, 6))
        side = g.choice([placo.HumanoidRobot_Side.left, placo.HumanoidRobot_Side.right])
        T0 = wk.flat(g.flt(-1, 1), g.flt(-1, 1), g.flt(-3, 3))
        steps = planner.plan(side, T0 @ wk.flat(0, p.feet_spacing / 2, 0), T0 @ wk.flat(0, -p.feet_spacing / 2, 0))
        if g.boolean():
            steps = placo.FootstepsPlanner.make_supports(steps, 0.0, g.boolean(), g.boolean(), True)
        if g.boolean():
            T = wk.flat(g.flt(-1, 1), g.flt(-1, 1), g.flt(-3, 3))
            viz.footsteps_viz(steps, T)
        else:
            T = np.eye(4)
            viz.footsteps_viz(steps)
        it = v.items()
        counts.append(len(steps))
        check("steps-count", len(it) == len(steps), lambda: f"{len(it)} outlines for {len(steps)} footsteps, after {counts}")
        for i in it:
            check("steps-kind", i[0] == "LineLoop")
        for s in steps:
            poly = np.array([(T @ [*xy, 0, 1])[:3] for xy in s.support_polygon()])
            if isinstance(s, placo.Support):
                sides = [str(f.side) for f in s.footsteps]
            else:
                sides = [str(s.side)]
            col = 0x1111AA if len(sides) >= 2 else (0xFF3333 if sides[0] == "left" else 0x33FF33)

            def same(i):
                # the same closed outline: repeated consecutive points do not count
                q = np.array(i[1].position).T
                q = np.array([x for k, x in enumerate(q) if k == 0 or np.linalg.norm(x - q[k - 1]) > 1e-9])
                if len(q) > 1 and np.linalg.norm(q[0] - q[-1]) < 1e-9:
                    q = q[:-1]
                return q.shape == poly.shape and any(np.allclose(np.roll(q, k, axis=0), poly, atol=1e-7) for k in range(len(q))) and i[2].color == col
            check("steps-outline", any(same(i) for i in it), lambda: f"no outline with {sides} for {poly}")
    g.note(counts=counts)
    g.cls("shorter" if any(b < a for a, b in zip(counts, counts[1:])) else "longer")
    g.nt(len(counts) > 1)


def f_robot_frame(g):
    v = fresh()
    robot, spec, kind = rb.pick(g)
    q = rb.gen_q(g, robot)
    rb.set_q(robot, q)
    name = g.choice(["robot", "other"])
    viz.robot_viz(robot, name)
    frames = g.shuffle(rb.body_frames(robot))[:3]
    for rnd in range(2):
        for f in frames:
            s = g.pos(0.1, 3)
            viz.robot_frame_viz(robot, f, 1.0, s)
            it = v.shown("frames", f"{name}_{f}")
            check("robot-frame-pieces", len(it) == 3)
            T = rb.frame_T(robot.model, q, f)
            for k, col in enumerate((0xFF0000, 0x00FF00, 0x0000FF)):
                a, b = ends([i for i in it if i[2].color == col][0])
                close("robot-frame-origin", a, T[:3, 3], atol=1e-6)
                close("robot-frame-axis", b, T[:3, 3] + 0.1 * s * T[:3, k], atol=1e-6)
        check("robot-frame-count", len(v.items()) == 3 * len(set(frames)))
        q = rb.gen_q(g, robot)
        rb.set_q(robot, q)
    g.note(robot=kind, frames=frames)
    g.nt()


def f_contacts(g):
    """Each active contact is shown by an arrow along its force, from where it applies; the others are not."""
    sc = dyn.gen_scene(g, n_tasks=2, contacts=["unilateral-point", "point", "planar", "fixed", "line", "unilateral-line", "wrench", "unilateral-point", "planar", "puppet", "task"], n_contacts=4, limits=False, hard=0.0)
    for t in sc.tasks:
        t.priority = "soft"
        dyn.sync(t)
    if not sc.contacts:
        raise Discard
    sc.reg0 = 1e-4
    v = fresh()
    s = sc.build()
    handles = [s.get_contact(i) for i in range(s.count_contacts())]
    check("contacts-count", len(handles) == len(sc.contacts))
    log = []
    for rnd in range(g.integer(1, 3)):
        for k, h in zip(sc.contacts, handles):
            if g.boolean(0.3):
                k.active = not k.active
                h.active = k.active
        if not s.solve().success:
            raise Discard
        ratio, radius = g.pos(1e-3, 0.1), g.pos(1e-3, 0.02)
        viz.contacts_viz(s, ratio, radius)
        want = []
        for k, h in zip(sc.contacts, handles):
            if not k.active or k.kind in ("puppet", "task"):  # no place to draw these
                continue
            w = np.array(h.wrench).reshape(-1)
            f = k.f if k.kind == "wrench" else (k.task.f if k.kind in ("point", "unilateral-point") else k.task.pos.f)
            T = sc.c.T(sc.q, f)
            p, R = T[:3, 3], T[:3, :3]
            if k.kind == "wrench":
                force, col = (w[:3] if k.ref == "world" else R @ w[:3]), 0xFF2222
            elif k.kind in ("point", "unilateral-point"):
                force, col = w[:3], 0x00FF00
            else:
                six = k.kind in ("planar", "fixed")
                force, col = (R @ w[:3] if six else w[:3]), (0x00FFAA if six else 0xFF33AA)
                z = np.array(h.zmp()).reshape(-1)
                if not np.all(np.isfinite(z)) or np.abs(z).max() > 1e4:
                    raise Discard
                if abs(np.linalg.norm(force) - 1e-6) < 1e-7:
                    raise Discard
                if np.linalg.norm(force) > 1e-6:
                    p = p + R @ z
            want.append((k.kind, p, p + force * ratio, col))
        log.append([w[0] for w in want])
        paths = sorted({x[:2] for x, it in v.store.items() if it[0] is not None})
        check("contact-arrows", len(paths) == len(want), lambda: f"{len(paths)} arrows for {len(want)} active contacts with a place, {log}")
        left = list(paths)
        for kind, p, q, col in want:
            hit = None
            why = None
            for x in left:
                try:
                    arrow_of(f"contact-{kind}", v.shown(*x), p, q, radius, col)
                    hit = x
                    break
                except Violation as e:
                    why = why or e
            if hit is None:
                raise Violation(f"contact-{kind}", f"no arrow from {p} to {q} ({why}), {log}")
            left.remove(hit)
    g.note(contacts=[k.kind for k in sc.contacts], history=log)
    g.cls(*[k.kind for k in sc.contacts])
    g.cls("inactive" if any(not k.active for k in sc.contacts) else "all-active")
    g.nt(any(log))


FACETS = [
    Facet("shapes", f_shapes, 600, 6000, "a shape was drawn again under the same name"),
    Facet("footsteps", f_footsteps, 200, 3000, "several plans were drawn one after the other"),
    Facet("robot-frame", f_robot_frame, 100, 1500, "a robot in a generated state"),
    Facet("contacts", f_contacts, 250, 3000, "a contact is active"),
]
