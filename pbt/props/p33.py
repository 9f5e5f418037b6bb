"""P33: dynamics solves respect torque, velocity and joint limits."""
import math
import numpy as np
import placo
import dyn
import kin
import qp
import robots as rb
from engine import Facet, Violation, Discard, close, check, raises

RULE = "A case is a robot in a generated state, with tasks pulling towards some limits, and limits enabled; the results are compared to the documented bounds, and to the optimum without any other bound. Non-trivial when a limit is reached by the result, or would be exceeded without it."


def with_limits(g, only=None, outside=0.25):
    sc = dyn.gen_scene(g, n_contacts=1, n_tasks=2, limits=False, hard=0.1, outside=outside, contacts=["puppet", "point", "unilateral-point", "planar", "wrench"])
    c = sc.c
    sc.dt = g.choice([0.0005, 0.001, 0.002, 0.01, 0.05])
    names = ["torque_limits", "velocity_limits", "vs_torque", "joint_limits"]
    on = [only] if only else (g.subset(names, 0.5) or [g.choice(names)])
    for n in on:
        setattr(sc, n, True)
    for j in c.names:
        if g.boolean(0.4):
            sc.qdd_safe[j] = g.pos(0.1, 50) if g.boolean(0.8) else g.pos(0.005, 0.1)
        if g.boolean(0.3):
            sc.overrides[j] = g.pos(0.5, 50) if g.boolean(0.8) else g.pos(0.005, 0.5)
    # a strong pull on the joints
    j = sorted(g.subset(c.names) or [g.choice(c.names)])
    n = len(j)
    t = dyn.Joints(c, j, np.array([sc.q[c.iq[x]] for x in j]) + g.gauss_vec(n) * 0.5, g.gauss_vec(n), g.gauss_vec(n) * g.choice([0.0, 20.0, 200.0]), True)
    t.kp, t.weight, t.priority = g.pos(1, 500), g.pos(0.1, 10), "soft"
    sc.tasks.append(t)
    return sc


def bounds(sc, res, tol=3e-5):
    """The limits read on the result, joint by joint."""
    c, m = sc.c, sc.c.m
    qdd, tau = np.array(res.qdd).reshape(-1), np.array(res.tau).reshape(-1)
    reached = 0
    for j in c.names:
        i, iq = c.iv[j], c.iq[j]
        v1 = sc.qd[i] + sc.dt * qdd[i]
        vm, tm = float(m.velocityLimit[i]), float(m.effortLimit[i])
        s = 1 + abs(qdd[i]) + abs(tau[i])
        if sc.torque_limits:
            lim = sc.overrides.get(j, tm)
            check("torque-limit", abs(tau[i]) <= lim + tol * s, lambda: f"{j}: torque {tau[i]} with limit {lim}")
            reached += abs(tau[i]) >= lim - 10 * tol * s
        if sc.vs_torque:
            x = v1 + vm * tau[i] / tm
            check("velocity-vs-torque", abs(x) <= vm + tol * s * (1 + vm / tm), lambda: f"{j}: next velocity {v1} with torque {tau[i]}, line from {vm} rad/s to {tm} Nm")
            reached += abs(x) >= vm - 10 * tol * s
        elif sc.velocity_limits:
            check("velocity-limit", abs(v1) <= vm + tol * s, lambda: f"{j}: next velocity {v1} with limit {vm}")
            reached += abs(v1) >= vm - 10 * tol * s
        if sc.joint_limits:
            a = sc.qdd_safe.get(j, 1.0)
            lo, up = float(m.lowerPositionLimit[iq]), float(m.upperPositionLimit[iq])
            p = sc.q[iq]
            if p > up:
                check("beyond-upper", qdd[i] <= -a + tol * s, lambda: f"{j}: beyond its upper limit, acceleration {qdd[i]} instead of {-a} at most")
            else:
                b = math.sqrt(2 * a * (up - p))
                check("braking-upper", v1 <= b + tol * s, lambda: f"{j}: next velocity {v1} with a braking bound of {b}")
                reached += v1 >= b - 10 * tol * s
            if p < lo:
                check("beyond-lower", qdd[i] >= a - tol * s, lambda: f"{j}: beyond its lower limit, acceleration {qdd[i]} instead of {a} at least")
            else:
                b = -math.sqrt(2 * a * (p - lo))
                check("braking-lower", v1 >= b - tol * s, lambda: f"{j}: next velocity {v1} with a braking bound of {b}")
                reached += v1 <= b + 10 * tol * s
    return reached


def f_limits(g):
    sc = with_limits(g)
    sp, reg0 = dyn.domain(sc)
    g.note(**sc.describe())
    s = sc.build()
    res = s.solve()
    check("refused", res.success, "the solve fails although the limits leave room")
    n = bounds(sc, res)
    for k in ("torque_limits", "velocity_limits", "vs_torque", "joint_limits"):
        if getattr(sc, k):
            g.cls(k)
    x = sc.x(res)
    # no other bound than the documented ones
    r = qp.kkt_residual(sp, x, reg0, act_tol=3e-5)
    check("over-restrictive", r <= 5e-5, lambda: f"relative residual {r:.3g}: something else than the documented limits holds the result back")
    g.nt(n > 0)


def f_single(g):
    """One kind of limit at a time, from states beyond the bounds or not."""
    only = g.choice(["torque_limits", "velocity_limits", "vs_torque", "joint_limits"])
    sc = with_limits(g, only=only, outside=0.5)
    g.cls(only)
    sp, reg0 = dyn.domain(sc)
    s = sc.build()
    res = s.solve()
    check("refused", res.success, "the solve fails although the limits leave room")
    n = bounds(sc, res)
    r = qp.kkt_residual(sp, sc.x(res), reg0, act_tol=3e-5)
    check("over-restrictive", r <= 5e-5, lambda: f"relative residual {r:.3g}")
    g.nt(n > 0)


def f_toggle(g):
    """Enabling, disabling and re-enabling limits on the same solver."""
    sc = with_limits(g)
    s = sc.build()
    names = ["torque_limits", "velocity_limits", "vs_torque", "joint_limits"]
    fn = {"torque_limits": s.enable_torque_limits, "velocity_limits": s.enable_velocity_limits, "vs_torque": s.enable_velocity_vs_torque_limits, "joint_limits": s.enable_joint_limits}
    solved = 0
    for _ in range(g.integer(2, 5)):
        for _ in range(g.integer(1, 2)):
            k = g.integer(0, 4)
            if k == 0:
                j = g.choice(sc.c.names)
                sc.overrides[j] = g.pos(0.5, 50) if g.boolean(0.8) else g.pos(0.005, 0.5)
                s.set_torque_limit(j, sc.overrides[j])
            elif k == 1:
                j = g.choice(sc.c.names)
                sc.qdd_safe[j] = g.pos(0.1, 50) if g.boolean(0.8) else g.pos(0.005, 0.1)
                s.set_qdd_safe(j, sc.qdd_safe[j])
            elif k == 2:
                j = g.choice(sc.c.names)
                v = g.pos(1, 60)
                g.choice([sc.c.robot.set_torque_limit, sc.c.robot.set_velocity_limit])(j, v)
            else:
                n = g.choice(names)
                setattr(sc, n, not getattr(sc, n))
                fn[n](getattr(sc, n))
        try:
            sp, reg0 = dyn.domain(sc)
        except Discard:
            continue
        res = s.solve()
        check("refused", res.success, "the solve fails although the limits leave room")
        bounds(sc, res)
        r = qp.kkt_residual(sp, sc.x(res), reg0, act_tol=3e-5)
        check("toggled", r <= 5e-5, lambda: f"relative residual {r:.3g}")
        solved += 1
    if not solved:
        raise Discard
    g.nt(solved > 1)


def f_refuse(g):
    """Limits that need a time step are refused without one; unknown joints are refused; negative braking accelerations make no sense and are not generated."""
    sc = dyn.gen_scene(g, n_contacts=0, n_tasks=1, limits=False, hard=0.0)
    sc.dt = 0.0
    s = sc.build()
    case = g.choice(["velocity", "joint", "vs", "torque", "unknown"])
    g.cls(case)
    if case == "unknown":
        raises("unknown-joint", lambda: s.set_torque_limit("no such joint", 1.0))
        raises("unknown-joint", lambda: s.set_qdd_safe("no such joint", 1.0))
    elif case == "torque":
        sc.torque_limits = True
        for j in sc.c.names:
            sc.overrides[j] = 1e3
        sc.options(s)
        dyn.domain(sc)
        check("torque-needs-dt", s.solve().success)
    else:
        {"velocity": s.enable_velocity_limits, "joint": s.enable_joint_limits, "vs": s.enable_velocity_vs_torque_limits}[case](True)
        raises("no-dt", lambda: s.solve())
        {"velocity": s.enable_velocity_limits, "joint": s.enable_joint_limits, "vs": s.enable_velocity_vs_torque_limits}[case](False)
        dyn.domain(sc)
        check("not-recovered", s.solve().success)
    g.nt()


def f_loop(g):
    """Closed loop: integrating, a robot pulled against its joint limits never leaves them (beyond the braking bound's discretisation)."""
    r, spec, kind = rb.pick(g, w_random=8, min_joints=2, max_joints=5)
    c = dyn.DCtx(r)
    for j in c.names:
        lo, up = (float(v) for v in r.get_joint_limits(j))
        if lo < -rb.BIG or up > rb.BIG or up - lo < 0.2:
            r.set_joint_limits(j, -1.0, 1.0)
        r.set_velocity_limit(j, g.pos(1, 10))
    q = rb.gen_q(g, r, shrink=0.1)
    rb.set_q(r, q, np.zeros(c.nv))
    s = placo.DynamicsSolver(r)
    s.mask_fbase(True)
    s.dt = g.choice([0.001, 0.005])
    s.enable_joint_limits(True)
    s.enable_velocity_limits(True)
    safe = {}
    for j in c.names:
        safe[j] = g.pos(1, 20)
        s.set_qdd_safe(j, safe[j])
    t = s.add_joints_task()
    t.configure("j", "soft", 1.0)
    t.kp = g.pos(10, 500)
    for j in c.names:
        lo, up = (float(v) for v in r.get_joint_limits(j))
        t.set_joint(j, g.choice([lo - 0.5, up + 0.5, 0.5 * (lo + up)]))
    hit = False
    for _ in range(g.integer(20, 150)):
        res = s.solve(True)
        check("refused", res.success)
        r.update_kinematics()
        for j in c.names:
            lo, up = (float(v) for v in r.get_joint_limits(j))
            p, v = r.state.q[c.iq[j]], r.state.qd[c.iv[j]]
            b = math.sqrt(2 * safe[j] * max(0.0, 1e-9))
            # one step at the braking bound may overshoot by at most a_safe dt^2 / 2
            over = 2 * safe[j] * s.dt ** 2 + 1e-6
            check("left-limits", lo - over <= p <= up + over, lambda: f"{j}: {p} outside of [{lo}, {up}]")
            check("loop-velocity", abs(v) <= float(c.m.velocityLimit[c.iv[j]]) * (1 + 1e-6) + 1e-6, lambda: f"{j}: velocity {v}")
            hit = hit or p > up - 0.02 or p < lo + 0.02
    g.nt(hit)


FACETS = [
    Facet("limits", f_limits, 2000, 30000, "a limit is reached"),
    Facet("single", f_single, 1500, 20000, "the limit is reached"),
    Facet("toggle", f_toggle, 800, 10000, "two solves"),
    Facet("refuse", f_refuse, 150, 1500, "always"),
    Facet("loop", f_loop, 60, 1000, "a joint gets near its limit"),
]
