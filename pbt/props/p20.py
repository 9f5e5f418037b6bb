"""P20: every kinematics task's error and matrix are a true error and its derivative."""
import math

import numpy as np
import pinocchio as pin
import placo
import kin
import robots as rb
from engine import Facet, Violation, Discard, close, check, raises

RULE = "A case is a robot, a configuration and one kinematics task with generated targets, frames and mask; its error and matrix are compared with definitions computed from forward kinematics, and with finite differences; non-trivial when the expected error is above 1e-3 and the matrix not null."


def setup(g, **kw):
    r, spec, kind = rb.pick(g, w_random=8, **kw)
    c = kin.Ctx(r)
    q = rb.gen_q(g, r)
    rb.set_q(r, q)
    s = placo.KinematicsSolver(r)
    g.cls(kind)
    return r, c, q, s


def subtasks(t, spec):
    return spec.sub(t) if hasattr(spec, "sub") else [t]


def f_task(g):
    r, c, q, s = setup(g)
    goal = rb.gen_q(g, r)
    s.dt = g.choice([0.01, 0.1, 1.0, 1e-3, 1e-4])
    sp = kin.gen_task(g, c, goal, dt=s.dt, spread=g.choice([0.0, 0.5, 0.5, 15.0]), special=True)
    t = sp.add(s)
    sp.configure(t, "t")
    g.note(task=sp.describe(), q=q)
    g.cls(sp.kind, "masked" if sp.mask else "plain")
    for part in subtasks(t, sp):
        check("name", part.name.startswith("t"), f"task named t is named {part.name}")
        check("priority", part.priority == sp.priority, f"{part.priority} instead of {sp.priority}")
    for what, got, want in kin.read_back(sp, t):
        close(f"{sp.kind}-read-back", np.array(got, dtype=float), np.array(want, dtype=float), atol=1e-9, msg=what)
    for _ in range(2):
        for part, tt in zip(sp.parts(), subtasks(t, sp)):
            if part.kind == "distance" and np.linalg.norm(part.vec(q)) < 1e-3:
                raise Discard
            if part.kind == "wheel" and np.linalg.norm(np.cross(part.Ts[:3, 2], c.T(q, part.joint)[:3, 2])) < 0.05:
                raise Discard
            tt.update()
            want_b = part.err(q)
            if part.kind in ("orientation", "relative_orientation"):
                X = part.R @ (c.T(q, part.f)[:3, :3].T if part.kind == "orientation" else part.val(q).T)
                if np.trace(X) < -0.99:
                    raise Discard  # half turns: the rotation vector jumps
            if part.kind == "axisalign":
                a = part.angle(q)
                close("axisalign-error", tt.error(), want_b, atol=1e-6)
                if 1e-3 < a < math.pi - 1e-3:
                    close("axisalign-matrix", np.array(tt.A), part.jac(q), atol=1e-7 / min(a, math.pi - a))
            else:
                close(f"{part.kind}-error", np.array(tt.error()).reshape(-1), want_b, atol=1e-7, rtol=1e-7, msg=repr(part.mask))
                close(f"{part.kind}-matrix", np.array(tt.A).reshape(-1, c.nv), part.jac(q), atol=1e-7, rtol=1e-7, msg=repr(part.mask))
            close("error-norm", tt.error_norm(), np.linalg.norm(want_b), atol=1e-6)
            g.nt(np.linalg.norm(want_b) > 1e-3 and np.abs(part.jac(q)).max() > 1e-6 if part.kind != "axisalign" else part.angle(q) > 1e-3)
        # the same task, after the robot moved
        q = rb.gen_q(g, r)
        rb.set_q(r, q)


EXACT = ["position", "relative_position", "com", "joints", "gear", "distance", "wheel"]
ATGOAL = ["orientation", "relative_orientation", "frame", "relative_frame"] + EXACT[:-1]


def f_derivative(g):
    """Finite differences of the reported error itself, against the reported matrix."""
    r, c, q, s = setup(g)
    s.dt = 0.01
    at_goal = g.boolean()
    sp = kin.gen_task(g, c, q if at_goal else rb.gen_q(g, r), kinds=ATGOAL if at_goal else EXACT, spread=0.0)
    if sp.mask is not None and sp.mask.frame == "local" and sp.kind == "position" and not at_goal:
        sp.mask = kin.Mask(sp.mask.axes, "world")  # away from the goal, the local axes move with the frame
    if sp.kind == "wheel" and np.linalg.norm(np.cross(sp.Ts[:3, 2], c.T(q, sp.joint)[:3, 2])) < 0.1:
        raise Discard
    if sp.kind == "distance" and np.linalg.norm(sp.vec(q)) < 0.02:
        raise Discard
    t = sp.add(s)
    sp.configure(t, "t")
    v = g.gauss_vec(c.nv)
    rows = slice(None)
    for part, tt in zip(sp.parts(), subtasks(t, sp)):
        def err(x):
            rb.set_q(r, rb.integ(c.m, q, v * x))
            tt.update()
            b = np.array(tt.error()).reshape(-1)
            return b[-1:] if part.kind == "wheel" else b
        d = rb.ndiff(err, 1e-4)
        b0 = err(0.0)
        if at_goal and part.kind != "gear":
            close(f"{part.kind}-zero-at-goal", b0, np.zeros_like(b0), atol=1e-7)
        A = np.array(tt.A).reshape(-1, c.nv)
        if part.kind == "wheel":
            A = A[-1:]
        close(f"{part.kind}-derivative", A @ v, -d, atol=1e-5, rtol=1e-6, msg=repr(part.mask))
        g.nt(np.abs(A @ v).max() > 1e-3)
    g.note(task=sp.describe(), at_goal=at_goal)
    g.cls(sp.kind, "goal" if at_goal else "away")


def f_newton(g):
    """For rotations, moving the frame by the reported error reaches the goal, and its angle is the remaining angle."""
    r, c, q, s = setup(g)
    f = g.choice(c.frames)
    R = g.rotation()
    t = s.add_orientation_task(f, R)
    t.update()
    e = np.array(t.error()).reshape(-1)
    Rf = c.T(q, f)[:3, :3]
    close("rotation-vector", (rb.rot(e, np.linalg.norm(e)) if np.linalg.norm(e) > 1e-9 else np.eye(3)) @ Rf, R, atol=1e-6)
    check("rotation-angle", np.linalg.norm(e) <= math.pi + 1e-6)
    b = g.choice(c.frames)
    t2 = s.add_relative_orientation_task(f, b, R)
    t2.update()
    e = np.array(t2.error()).reshape(-1)
    Rab = Rf.T @ c.T(q, b)[:3, :3]
    close("relative-rotation-vector", (rb.rot(e, np.linalg.norm(e)) if np.linalg.norm(e) > 1e-9 else np.eye(3)) @ Rab, R, atol=1e-6)
    ax, tg = g.unit(3), g.unit(3)
    if g.boolean(0.3):
        tg = Rf @ ax * g.choice([1, -1])
    t3 = s.add_axisalign_task(f, ax, tg)
    t3.update()
    A, bb = np.array(t3.A), np.array(t3.error()).reshape(-1)
    check("axis-finite", np.all(np.isfinite(A)) and np.all(np.isfinite(bb)))
    # rotating the floating base alone by w gives A dq = rows . w: recover the rotation demanded by the task
    Jw = c.J(q, f)[3:]
    rows = A @ np.linalg.pinv(Jw)
    a = Rf @ ax
    w = rows.T @ bb
    wn = np.linalg.norm(w)
    close("axis-rotation", (rb.rot(w, wn) if wn > 1e-9 else np.eye(3)) @ a, tg, atol=1e-5)
    close("axis-free", rows @ a, np.zeros(2), atol=1e-7)
    g.note(frame=f)
    g.nt(True)


def f_manipulability(g):
    spec = rb.gen_robot(g, min_joints=3, max_joints=7, kinds=("revolute",), chain_bias=0.95, fixed=False)
    r = rb.make(spec)
    c = kin.Ctx(r)
    q = rb.gen_q(g, r)
    rb.set_q(r, q)
    s = placo.KinematicsSolver(r)
    f = spec.links[-1].name if g.boolean(0.7) else g.choice(c.frames)
    typ = g.choice(["position", "orientation", "both"])
    rows = {"position": slice(0, 3), "orientation": slice(3, 6), "both": slice(0, 6)}[typ]
    lam = g.pos(1e-2, 10)
    t = s.add_manipulability_task(f, typ, lam)
    mini = g.boolean()
    t.minimize = mini

    def man(qq):
        J = c.J(qq, f, pin.LOCAL)[rows, 6:]
        return math.sqrt(max(0.0, np.linalg.det(J @ J.T)))
    J = c.J(q, f, pin.LOCAL)[rows, 6:]
    sv = np.linalg.svd(J, compute_uv=False)
    if J.shape[1] < J.shape[0] or sv[-1] < 0.02:
        raise Discard
    t.update()
    close("manipulability", t.manipulability, man(q), atol=1e-9, rtol=1e-6)
    A, b = np.array(t.A), np.array(t.error()).reshape(-1)
    # the cost |A dq - b|^2 descends along the gradient of the manipulability (ascends when minimizing): its gradient is -2 A^T b
    grad = np.array([rb.ndiff(lambda x: man(rb.integ(c.m, q, np.eye(c.nv)[k] * x)), 1e-4) for k in range(6, c.nv)])
    cost = 2 * A.T @ b
    close("manipulability-base", cost[:6], np.zeros(6), atol=1e-12)
    close("manipulability-gradient", cost[6:], grad * (-1 if mini else 1), atol=1e-5, rtol=1e-4)
    # and the quadratic part is lambda^2 |dq|^2 on the joints
    H = A.T @ A
    W = np.diag([0.0] * 6 + [lam * lam] * (c.nv - 6))
    close("manipulability-regularization", H, W, atol=1e-9)
    g.note(type=typ, lam=lam, minimize=mini, joints=c.nv - 6)
    g.cls(typ)
    g.nt(np.abs(grad).max() > 1e-3)


def f_regul(g):
    r, c, q, s = setup(g)
    w = g.pos(1e-6, 10)
    s.dt = g.choice([0.0, 1e-4, 0.01, 0.5])
    t = s.add_regularization_task(w)
    D = {n: w for n in c.names}
    for _ in range(g.small(0, 4)):
        if g.boolean(0.3):
            w2 = g.pos(1e-6, 10)
            t.set_weight(w2)
            D = {n: (w2 if D[n] == w else D[n]) for n in c.names}
            w = w2
        else:
            n = g.choice(c.names)
            x = 0.0 if g.boolean(0.1) else g.pos(1e-4, 10)
            t.set_joint_weight(n, x)
            D[n] = x
        if g.boolean(0.4):
            t.update()
    t.update()
    A, b = np.array(t.A), np.array(t.error()).reshape(-1)
    want = np.zeros(c.nv)
    for n in c.names:
        want[c.iv[n]] = D[n]
    v = g.gauss_vec(c.nv)
    close("regularization-cost", np.sum((A @ v - b) ** 2), np.sum(want * v * v), atol=1e-12, rtol=1e-7)
    mag = g.pos(1e-6, 10)
    k = s.add_kinetic_energy_regularization_task(mag)
    if s.dt == 0:
        raises("kinetic-energy-needs-dt", lambda: k.update())
        raises("kinetic-energy-needs-dt", lambda: s.solve(False))
    else:
        k.update()
        A, b = np.array(k.A), np.array(k.error()).reshape(-1)
        M = pin.crba(c.m, c.d, q)
        M = np.triu(M) + np.triu(M, 1).T
        qd = v / s.dt
        close("kinetic-energy-cost", np.sum((A @ v - b) ** 2), 0.5 * qd @ M @ qd, atol=1e-9, rtol=1e-6)
    g.note(weights=D, magnitude=mag, dt=s.dt)
    g.cls("dt0" if s.dt == 0 else "dt")
    g.nt(len(set(D.values())) > 1)


FACETS = [
    Facet("task", f_task, 2500, 50000, "error above 1e-3 and non null matrix"),
    Facet("derivative", f_derivative, 1200, 25000, "the motion changes the error"),
    Facet("rotation", f_newton, 500, 10000, "always"),
    Facet("manipulability", f_manipulability, 400, 8000, "the gradient is above 1e-3"),
    Facet("regularization", f_regul, 500, 10000, "different joint weights"),
]
