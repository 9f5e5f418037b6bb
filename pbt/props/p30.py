"""P30: inverse dynamics results satisfy the full equation of motion."""
import numpy as np
import pinocchio as pin
import dyn
import robots as rb
from engine import Facet, Violation, Discard, close, check, raises

RULE = "A case is a robot in a generated state, with dynamics tasks, contacts, limits and solver options; M qdd + bias = tau + contacts is checked with mass, bias and contact Jacobians computed with pinocchio. Non-trivial when an active contact transmits force, or the robot moves, and the torques are not all zero."


def newton(sc, res, g, tag=""):
    """The equation of motion, as a sum of forces applied on frames, from pinocchio."""
    c, m, d = sc.c, sc.c.m, sc.c.d
    qdd, tau = np.array(res.qdd).reshape(-1), np.array(res.tau).reshape(-1)
    total = np.zeros(c.nv)
    for k in sc.live():
        w = np.array(sc.handles[id(k)].wrench).reshape(-1)
        J = k.J(sc.q, sc.qd)
        check(f"{tag}wrench-size", len(w) == J.shape[0], f"{k.kind}: wrench of size {len(w)} instead of {J.shape[0]}")
        total += J.T @ w
    lhs = sc.mass() @ qdd + sc.bias()
    s = 1 + np.abs(lhs).max() + np.abs(total).max()
    close(f"{tag}equation-of-motion", tau + total, lhs, atol=1e-7 * s, rtol=0)
    close(f"{tag}tau-contacts", res.tau_contacts, total, atol=1e-8 * s, rtol=0)
    if sc.mask_base:
        check(f"{tag}masked-base-moves", np.abs(qdd[:6]).max() <= 1e-5 * (1 + np.abs(qdd).max()), lambda: f"{qdd[:6]}")
    else:
        check(f"{tag}base-torque", np.abs(tau[:6]).max() <= 2e-5 * s, lambda: f"{tau[:6]}")
    td = res.tau_dict(c.robot)
    check(f"{tag}tau-dict-keys", set(td) == set(c.names))
    for j in c.names:
        check(f"{tag}tau-dict", td[j] == tau[c.iv[j]], f"{j}")
    g.nt((np.abs(total).max() > 1e-3 or np.abs(sc.qd).max() > 1e-3) and np.abs(tau).max() > 1e-6)


def f_motion(g):
    sc, sp, reg0, s, res, x = dyn.solved(g)
    newton(sc, res, g)
    if g.boolean(0.3):
        # the same solver, once the robot moved, possibly integrating
        sc.q = rb.gen_q(g, sc.c.robot, shrink=0.05)
        sc.qd = g.gauss_vec(sc.c.nv) * g.choice([0.0, 0.5])
        rb.set_q(sc.c.robot, sc.q, sc.qd)
        try:
            dyn.domain(sc)
        except Discard:
            return
        res = s.solve(sc.dt > 0 and g.boolean())
        check("refused", res.success)
        newton(sc, res, g, "moved-")
        g.cls("moved")
    for k in sc.live():
        g.cls(k.kind)
    g.cls("masked base" if sc.mask_base else "free base", "gravity only" if sc.gravity_only else "full bias")
    if sc.damping:
        g.cls("damping")
    if sc.extra is not None:
        g.cls("extra force")


def f_forward(g):
    """The same equation, read with the independent forward dynamics algorithm: qdd = aba(tau + contacts)."""
    sc, sp, reg0, s, res, x = dyn.solved(g, refine=lambda sc: setattr(sc, "gravity_only", False))
    c = sc.c
    if np.abs(sc.rotor()).max() > 0:
        g.cls("rotors")
    total = sum((k.J(sc.q, sc.qd).T @ np.array(sc.handles[id(k)].wrench).reshape(-1) for k in sc.live()), np.zeros(c.nv))
    f = np.array(res.tau).reshape(-1) + total - sc.damping * sc.qd - (0 if sc.extra is None else sc.extra)
    qdd = np.array(res.qdd).reshape(-1)
    f = f - sc.rotor() * qdd
    M = sc.mass() - np.diag(sc.rotor())
    if np.linalg.cond(M) > 1e7:
        raise Discard
    got = pin.aba(c.m, c.d, sc.q, sc.qd, f)
    close("forward-dynamics", qdd, got, atol=1e-6 * (1 + np.abs(f).max()), rtol=1e-6)
    g.nt(np.abs(f).max() > 1e-3 and np.abs(qdd).max() > 1e-6)


def f_contact_effect(g):
    """What each contact transmits is a force on a point: its power equals force times the measured velocity there."""
    sc, sp, reg0, s, res, x = dyn.solved(g, contacts=["unilateral-point", "point", "planar", "fixed", "wrench", "line"], n_contacts=2, n_tasks=2)
    c = sc.c
    if not sc.live():
        raise Discard
    v = g.gauss_vec(c.nv)
    h = 1e-4

    def pose(t, f):
        return c.T(rb.integ(c.m, sc.q, v * t), f)
    power = 0.0
    for k in sc.live():
        w = np.array(sc.handles[id(k)].wrench).reshape(-1)
        f = k.f if k.kind == "wrench" else k.task.f
        T0 = c.T(sc.q, f)
        dp = (pose(h, f)[:3, 3] - pose(-h, f)[:3, 3]) / (2 * h)
        om = rb.log3(pose(h, f)[:3, :3] @ pose(-h, f)[:3, :3].T) / (2 * h)
        F = w[:3]
        if k.kind in ("planar", "fixed") or (k.kind == "wrench" and k.ref == "local"):
            power += (T0[:3, :3] @ F) @ dp + (T0[:3, :3] @ w[3:]) @ om
        elif k.kind == "wrench":
            power += F @ dp + w[3:] @ om
        elif k.kind == "line":
            axes = k.task.ori._m(np.eye(3), k.task.ori.local(sc.q))
            power += F @ dp + (axes.T @ w[3:]) @ om
        else:
            power += F @ dp
        g.cls(k.kind)
    scale = 1 + np.abs(np.array(res.tau_contacts)).max() * np.abs(v).max()
    close("contact-power", float(np.array(res.tau_contacts).reshape(-1) @ v), power, atol=1e-5 * scale, rtol=0)
    g.nt(abs(power) > 1e-3)


def f_limits_fail(g):
    """An impossible problem is reported as such: no motion, and the state of the robot is untouched."""
    sc = dyn.gen_scene(g, n_contacts=1, n_tasks=1, contacts=["point", "wrench", "puppet"], limits=False)
    sp, reg0 = dyn.domain(sc)
    s = sc.build()
    j = g.choice(sc.c.names)
    v = g.flt(5, 50)
    t1, t2 = s.add_joints_task(), s.add_joints_task()
    t1.configure("a", "hard", 1.0)
    t2.configure("b", "hard", 1.0)
    t1.set_joint(j, 0.0, 0.0, v)
    t2.set_joint(j, 0.0, 0.0, -v)
    s.dt = 0.01
    sc.c.robot.state.qdd = g.gauss_vec(sc.c.nv)
    q0, qd0, qdd0 = np.array(sc.c.robot.state.q), np.array(sc.c.robot.state.qd), np.array(sc.c.robot.state.qdd)
    res = s.solve(g.boolean())
    check("contradiction-accepted", not res.success)
    close("state-changed", sc.c.robot.state.q, q0, atol=0)
    close("state-changed", sc.c.robot.state.qd, qd0, atol=0)
    close("state-changed", sc.c.robot.state.qdd, qdd0, atol=0)
    s.remove_task(t2)
    s.dt = sc.dt
    g.nt()


FACETS = [
    Facet("motion", f_motion, 2500, 40000, "contact force or velocity, and torque"),
    Facet("forward", f_forward, 1000, 15000, "force and acceleration"),
    Facet("contact-effect", f_contact_effect, 1000, 15000, "contact power not zero"),
    Facet("contradiction", f_limits_fail, 300, 4000, "always"),
]
