"""P24: kinematics constraints keep the robot in the allowed region."""
import math

import numpy as np
import placo
import kin
import qp
import robots as rb
from engine import Facet, Violation, Discard, close, check, raises

RULE = "A case is a robot with targets pulling it and one to three constraints of generated kinds, or a sequence of small steps; the linearised limits are derived from forward kinematics, and the regions themselves are evaluated after each step. Non-trivial when a constraint is active, that is, changes the outcome."


def prepare(g, sc, soft=False):
    n = g.small(1, 3)
    for _ in range(n):
        t = kin.gen_con(g, sc.c, sc.q, sc.dt)
        if t is None:
            raise Discard
        if soft and g.boolean(0.6):
            t.priority, t.weight = "soft", g.pos(100, 1e3) if g.boolean(0.2) else g.pos(0.1, 20)
        sc.cons.append(t)
    if kin.degenerate(sc, sc.q):
        raise Discard
    sp = sc.spec(sc.q)
    defi, cond = kin.eq_conditioning(sp)
    if defi or cond < 1e-3 or kin.solver_tolerance(sp) > 1e-6 or kin.witness(sp, 1e-4) is None:
        raise Discard
    g.note(**sc.describe())
    return sp


def f_step(g):
    """One solve: the linearised limits hold exactly and the displacement is the best one under exactly those limits."""
    sc = kin.gen_scene(g, n_tasks=3, reach=g.choice([0.3, 1.5]))
    sp = prepare(g, sc, soft=True)
    s = sc.build()
    dq = kin.solve(s)
    x = np.concatenate([dq, [s.scale]]) if sc.scaled() else dq
    heavy = 10 if any(t.priority == "soft" and t.weight >= 100 for t in sc.cons) else 1  # the QP is solved less finely
    for t in sc.cons:
        A, b = t.rows(sc.q)
        if t.priority == "hard":
            check(t.kind, np.min(A @ dq + b) >= -5e-6 * heavy, lambda: f"violated: {A @ dq + b}")
        if np.min(A @ dq + b) < 1e-6:
            g.cls(f"{t.priority}-{t.kind}-active")
            g.nt(True)
        g.cls(f"{t.priority}-{t.kind}")
    qp.check_feasible(sp, x, tol=1e-5 * heavy)
    r = qp.kkt_residual(sp, x, 1e-8)
    check("not-optimal", r <= 3e-5 * heavy, lambda: f"relative residual {r:.3g}, dq={dq}")


def f_first_order(g):
    """The limits used by a solve are those of the region: what is left, and how it varies with any displacement."""
    r, spec, kind = rb.pick(g)
    c = kin.Ctx(r)
    q = rb.gen_q(g, r)
    rb.set_q(r, q)
    t = kin.gen_con(g, c, q, 0.01, kinds=["cone", "yaw", "distance-max", "com-polygon"], room=g.flt(0.01, 0.2))
    if t is None:
        raise Discard
    if t.kind == "com-polygon":
        t.dcm = None
    # a joints task drives the robot by v, the constraint has to bound the step at the boundary of the region
    v = g.gauss_vec(c.nv)
    v = v / np.linalg.norm(v)
    # how far along v the linearised region goes, from the region itself
    vals = t.values if t.kind == "com-polygon" else (lambda x: np.array([t.value(x)]))

    def bound(v):
        sl = rb.ndiff(lambda h: vals(rb.integ(c.m, q, v * h)), 1e-4)
        now = vals(q)
        lam = min([a / -b for a, b in zip(now, sl) if b < -0.02] + [1e9])
        if any(a + 1.1 * b * lam < 1e-3 for a, b in zip(now, sl) if -0.02 <= b < 0 and lam < 1e8):
            raise Discard  # the slope that binds is too small to be measured
        return lam, min(sl)
    lam, slope = bound(v)
    if lam > 1e8:
        v = -v
        lam, slope = bound(v)
    if lam > 20 or t.value(q) <= 1e-3:
        raise Discard
    s = placo.KinematicsSolver(r)
    s.enable_joint_limits(False)
    # the only free direction is v: dq = scale * 2 lam v
    h = t.add(s)
    h.configure("constraint", "hard", 1.0)
    # displacement targets on every DoF: base frame and joints, 2 lam v away
    step = 2 * lam
    jt = s.add_joints_task()
    jt.set_joints({n: float(q[c.iq[n]]) + step * float(v[c.iv[n]]) for n in c.names})
    jt.configure("joints", "scaled", 1.0)
    root = root_frame(c, q)
    T = c.T(q, root)
    J = c.J(q, root)
    w = J @ v * step
    pt = s.add_position_task(root, T[:3, 3] + w[:3])
    pt.configure("position", "scaled", 1.0)
    if np.linalg.norm(w[3:]) > 3:
        raise Discard
    n = np.linalg.norm(w[3:])
    ot = s.add_orientation_task(root, (rb.rot(w[3:], n) if n > 1e-9 else np.eye(3)) @ T[:3, :3])
    ot.configure("orientation", "scaled", 1.0)
    dq = kin.solve(s)
    check(f"{t.kind}-too-far", s.scale <= 0.5 + 1e-4, f"scale {s.scale} for a boundary at 0.5")
    if t.kind != "cone":  # the other slices of the cone may bind first
        check(f"{t.kind}-too-short", s.scale >= 0.5 - 1e-4, f"scale {s.scale} for a boundary at 0.5")
    close("direction", dq, v * step * s.scale, atol=1e-5 * (1 + step))
    g.note(kind=t.kind, room=t.value(q), slope=slope)
    g.cls(t.kind)
    g.nt(True)


def root_frame(c, q):
    """A frame rigidly attached to the floating base."""
    for f in c.frames:
        if np.abs(c.J(q, f)[:, 6:]).max() < 1e-12:
            return f
    raise Discard


def f_walk(g):
    """Small steps toward far targets never leave the region (up to second order terms), and do move."""
    sc = kin.gen_scene(g, n_tasks=2, prios=("soft",), reach=1.0, masks=False, kinds=["position", "orientation", "joints", "com", "frame"])
    c, r = sc.c, sc.c.robot
    sc.dt, sc.vel, sc.lim = 0.02, True, g.boolean()
    sc.mask_base = g.boolean(0.3)
    for j in c.names:
        r.set_velocity_limit(j, 1.0)
    n = g.small(1, 2)
    for _ in range(n):
        t = kin.gen_con(g, c, sc.q, 0.0, room=g.flt(0.0, 0.1))
        if t is None:
            raise Discard
        sc.cons.append(t)
    # slow base
    s = sc.build()
    q = sc.q
    steps = 12
    g.note(**sc.describe())
    base = root_frame(c, q)
    for k in range(steps):
        for t in sc.cons:
            if not t.ok(q):
                raise Discard
        sp = sc.spec(q)
        if kin.degenerate(sc, q) or kin.solver_tolerance(sp) > 1e-6 or kin.witness(sp, 1e-5) is None:
            break
        rb.set_q(r, q)
        try:
            dq = np.array(s.solve(False))
        except RuntimeError as e:
            check("feasible-refused", kin.numerically_refused(s), lambda: f"{e} although a step with room exists")
            break
        f = min(1.0, 0.05 / max(1e-12, np.abs(dq).max()))  # a shorter step in the same direction also meets the limits
        dq = dq * f
        q1 = rb.integ(c.m, q, dq)
        for t in sc.cons:
            a, b = t.value(q), t.value(q1)
            tol = 1e-5 + 40 * float(dq @ dq)
            check(f"{t.kind}-left", b >= min(a * (1 - f), 0.0) - tol, lambda: f"step {k}: room {a} became {b} with |dq|={np.linalg.norm(dq)}")
            g.cls(t.kind)
            if b < 0.02:
                g.cls(f"{t.kind}-boundary")
                g.nt(np.abs(dq).max() > 1e-4)
        q = q1


def f_collisions(g):
    """Self collision avoidance: rows, optimality, and actual distances after a small step."""
    spec = rb.gen_robot(g, min_joints=2, max_joints=5, geoms=True, reach=0.25)
    r = rb.make(spec, 0)
    c = kin.Ctx(r)
    q = rb.gen_q(g, r)
    rb.set_q(r, q)
    D = [d.min_distance for d in r.distances()]
    if not D:
        raise Discard
    t = kin.SelfCollisions(c, g.flt(0.001, 0.05), g.flt(0.01, 0.3))
    if g.boolean(0.5):
        t.trigger = max(D) + 0.01 if g.boolean() else max(1e-3, sorted(D)[len(D) // 2] + 1e-4)
    if not t.ok(q):
        raise Discard
    t.priority, t.weight = ("soft", g.pos(1, 100)) if g.boolean(0.4) else ("hard", 1.0)
    sc = kin.Scene()
    sc.c, sc.q, sc.cons = c, q, [t]
    sc.limits = {j: tuple(float(v) for v in r.get_joint_limits(j)) for j in c.names}
    sc.vmax = {}
    goal = rb.gen_q(g, r)
    sc.tasks = [kin.Joints(c, {j: float(goal[c.iq[j]]) for j in c.names})]
    sc.tasks[0].weight = g.pos(0.1, 10)
    sc.mask_base = True
    sc.reg0 = 1e-4
    sp = sc.spec(q)
    act = t.rows(q)[1]
    g.note(distances=sorted(D)[:8], margin=t.margin, trigger=t.trigger, priority=t.priority)
    if not len(act):
        sp.cons = [k for k in sp.cons if k.form != t.kind]
    if kin.witness(sp, 1e-4) is None:
        raise Discard
    s = sc.build()
    dq = kin.solve(s)
    qp.check_feasible(sp, dq, tol=1e-5)
    # soft inequality cost is not smooth in the slacks: certified through the KKT conditions of the hinge cost
    rr = qp.kkt_residual(sp, dq, 1e-4)
    check("not-optimal", rr <= 3e-5, lambda: f"relative residual {rr:.3g}, dq={dq}")
    A, b = t.rows(q)
    if t.priority == "hard" and len(b):
        check("self-collisions", np.min(A @ dq + b) >= -1e-5, lambda: f"{A @ dq + b}")
        h = min(1.0, 0.01 / max(1e-9, np.abs(dq).max()))
        before = {(d.objA, d.objB): d.min_distance for d in r.distances()}
        rb.set_q(r, rb.integ(c.m, q, dq * h))
        for d in r.distances():
            a = before[(d.objA, d.objB)]
            if 1e-3 < a < t.trigger:
                want = a + h * (t.margin - a)  # the linearised bound after a fraction h of the step
                check("distance-kept", d.min_distance >= want - 1.5e-3, f"distance {a} became {d.min_distance}, expected at least {want}")
    g.cls(t.priority, "triggered" if len(b) else "clear", "active" if len(b) and np.min(A @ dq + b) < 1e-5 else "inactive")
    g.nt(len(b) > 0 and np.min(A @ dq + b) < 1e-5)


def f_soft(g):
    """A soft constraint never makes a feasible problem fail, even from far outside of the region; invalid ones raise."""
    sc = kin.gen_scene(g, n_tasks=2)
    if kin.degenerate(sc, sc.q):
        raise Discard
    sp = sc.spec(sc.q)
    defi, cond = kin.eq_conditioning(sp)
    if defi or cond < 1e-3 or kin.solver_tolerance(sp) > 1e-6 or kin.witness(sp) is None:
        raise Discard
    for _ in range(g.small(1, 3)):
        t = kin.gen_con(g, sc.c, sc.q, sc.dt, room=-g.flt(0.01, 0.8))
        if t is None:
            raise Discard
        t.priority, t.weight = "soft", g.pos(100, 1e3) if g.boolean(0.2) else g.pos(0.1, 20)
        sc.cons.append(t)
        g.cls(t.kind)
    g.note(**sc.describe())
    sp = sc.spec(sc.q)
    if kin.solver_tolerance(sp) > 1e-6:
        raise Discard
    s = sc.build()
    dq = kin.solve(s)
    x = np.concatenate([dq, [s.scale]]) if sc.scaled() else dq
    heavy = 10 if any(t.priority == "soft" and t.weight >= 100 for t in sc.cons) else 1
    qp.check_feasible(sp, x, tol=1e-5 * heavy)
    r = qp.kkt_residual(sp, x, 1e-8)
    check("not-optimal", r <= 3e-5 * heavy, lambda: f"relative residual {r:.3g}, dq={dq}")
    g.nt(True)


def f_invalid(g):
    spec = rb.gen_robot(g, max_joints=4)
    r = rb.make(spec)
    c = kin.Ctx(r)
    q = rb.gen_q(g, r)
    rb.set_q(r, q)
    k = g.integer(0, 2)
    s = placo.KinematicsSolver(r)
    s.mask_fbase(True)
    if k == 0:
        n = g.choice([1, c.nv, c.nv - 6, c.nv + 3, c.nv + 1])
        rows = g.integer(1, 3)
        rb_ = rows if n != c.nv + 1 else rows + g.choice([1, -1, 2])
        if rb_ < 1 or (n == c.nv + 1 and rb_ == rows):
            raise Discard
        s.add_joint_space_half_spaces_constraint(np.ones((rows, n)), np.ones(rb_)).configure("c", "hard", 1.0)
        raises("half-space-sizes", lambda: s.solve(False))
        g.cls("half-spaces")
    elif k == 1:
        h = s.add_com_polygon_constraint(qp.clockwise_polygon(g, scale=5.0), 0.0)
        h.configure("c", "hard", 1.0)
        h.dcm = True
        h.omega = g.choice([0.0, 3.0])
        s.dt = 0.0 if h.omega else 0.1
        raises("dcm-needs-dt-and-omega", lambda: s.solve(False))
        g.cls("dcm")
    else:
        raises("unknown-frame", lambda: s.add_cone_constraint("nope", c.frames[0], 0.1))
        raises("unknown-frame", lambda: s.add_yaw_constraint(c.frames[0], "nope", 0.1))
        raises("unknown-frame", lambda: s.add_distance_constraint(c.frames[0], "nope", 0.1))
        g.cls("unknown frame")
    g.nt(True)
    g.note(case=k)


FACETS = [
    Facet("step", f_step, 1500, 30000, "a constraint is active"),
    Facet("first-order", f_first_order, 600, 12000, "always"),
    Facet("walk", f_walk, 150, 3000, "the boundary is met while moving"),
    Facet("collisions", f_collisions, 500, 10000, "a pair is held at its margin"),
    Facet("soft", f_soft, 400, 8000, "always"),
    Facet("invalid", f_invalid, 100, 1500, "always"),
]
