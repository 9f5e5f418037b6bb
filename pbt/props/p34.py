"""P34: a dynamics solver is optimal and independent of its history."""
import numpy as np
import placo
import dyn
import kin
import qp
import robots as rb
from engine import Facet, Violation, Discard, close, check, raises

RULE = "A case is a robot in a generated state with dynamics tasks, contacts and limits; the result must satisfy the optimality conditions of the cost assembled in numpy, or a used solver must give what a fresh one gives. Non-trivial when a contact or two tasks are present (optimality), or when something was removed or reconfigured before a compared solve (histories)."


def f_optimal(g):
    sc, sp, reg0, s, res, x = dyn.solved(g)
    qp.check_feasible(sp, x, tol=2e-5)
    r = qp.kkt_residual(sp, x, reg0, act_tol=2e-5)
    check("not-optimal", r <= 5e-5, lambda: f"relative residual {r:.3g} at {x}")
    for k in sp.cons:
        g.cls(f"{k.prio}-{k.form}")
    g.nt(len(sc.live()) > 0 or len(sc.tasks) > 1)


def owned_task(g, c, t):
    """The same task, created and kept by the caller."""
    r = c.robot
    if t.kind == "position":
        return placo.DynamicsPositionTask(r.get_frame_index(t.f) if hasattr(r, "get_frame_index") else c.m.getFrameId(t.f), t.target)
    if t.kind == "orientation":
        return placo.DynamicsOrientationTask(c.m.getFrameId(t.f), t.R)
    if t.kind == "com":
        return placo.DynamicsCoMTask(t.target)
    if t.kind == "joints":
        return placo.DynamicsJointsTask()
    if t.kind == "torque":
        return placo.DynamicsTorqueTask()
    return placo.DynamicsRelativePositionTask(c.m.getFrameId(t.a), c.m.getFrameId(t.b), t.target)


def compare(sc, s, g, avoid, tag):
    """The used solver against a fresh one with the same live items."""
    try:
        sp, reg0 = dyn.domain(sc)
    except Discard:
        return None
    if avoid and (sc.dt == 0 or sc.acc > 1e-8):
        return None
    res = s.solve()
    check("refused", res.success, "the solve fails although the problem is feasible with room")
    x, tau, tc = sc.x(res), np.array(res.tau).reshape(-1), np.array(res.tau_contacts).reshape(-1)
    used = sc.handles
    errs = [np.array(h.error).reshape(-1).copy() for t in sc.tasks for h in (t.sub(used[id(t)]) if t.parts() != [t] else [used[id(t)]])]
    s2 = sc.build()
    for w in avoid:
        s2.add_avoid_self_collisions_constraint().configure("a", "soft", w)
    res2 = s2.solve()
    x2, tau2 = sc.x(res2), np.array(res2.tau).reshape(-1)
    errs2 = [np.array(h.error).reshape(-1) for t in sc.tasks for h in (t.sub(sc.handles[id(t)]) if t.parts() != [t] else [sc.handles[id(t)]])]
    sc.handles = used
    tol = 2e-6 if reg0 > 1e-6 else 2e-4
    close(f"{tag}-differs", x, x2, atol=tol * (1 + np.abs(x2).max()))
    close(f"{tag}-tau-differs", tau, tau2, atol=tol * (1 + np.abs(tau2).max() + np.abs(x2).max()))
    close(f"{tag}-tau-contacts-differs", tc, res2.tau_contacts, atol=tol * (1 + np.abs(tau2).max() + np.abs(x2).max()))
    for a, b in zip(errs, errs2):
        close(f"{tag}-error-differs", a, b, atol=1e-9, rtol=1e-9)
    check("contacts-count", s.count_contacts() == len(sc.contacts))
    if not avoid:
        qp.check_feasible(sp, x, tol=2e-5)
        r = qp.kkt_residual(sp, x, reg0, act_tol=2e-5)
        check(f"{tag}-not-optimal", r <= 5e-5, lambda: f"relative residual {r:.3g}")
    return res


def f_history(g):
    robot = rb.pick(g, w_random=12, min_joints=2, max_joints=7)
    spec2, other = robot[1], None
    sc = dyn.gen_scene(g, n_tasks=2, n_contacts=1 if g.boolean(0.6) else 6, hard=0.2, robot=robot)
    if sc.reg0 is None:
        sc.reg0 = 1e-4
    c = sc.c
    s = sc.build()
    keep = []  # Python owned
    avoid, avoid_h = [], []
    steps, compared, changed = [], 0, False
    n = g.integer(3, 10)
    for _ in range(n):
        op = g.weighted([(3, "task"), (2, "owned"), (3, "contact"), (3, "remove-task"), (3, "remove-contact"), (2, "configure"), (2, "retarget"), (1, "toggle"), (2, "move"), (2, "options"),
                         (1, "gains"), (0.6, "clear"), (0.7, "avoid"), (0.7, "remove-avoid"), (3, "solve")])
        if op in ("task", "owned"):
            t = dyn.gen_task(g, c, sc.q, sc.qd, dyn.TASKS if op == "task" else ["position", "orientation", "com", "joints", "torque", "relative_position"])
            t.priority = "hard" if g.boolean(0.15) else "soft"
            dyn.sync(t)
            if op == "owned":
                h = owned_task(g, c, t)
                if spec2 is not None and g.boolean(0.4):  # lent to another solver, of another robot
                    if other is None:
                        robot2 = rb.make(spec2)
                        other = placo.DynamicsSolver(robot2)
                    other.add_task(h)
                    t.configure(h, "lent")
                    t.set(h)
                    other.solve()
                    other.remove_task(h)
                    g.cls("lent")
                s.add_task(h)
                if g.boolean(0.2):
                    s.add_task(h)  # twice is once
                keep.append(h)
            else:
                h = t.add(s)
            t.configure(h, f"t{len(steps)}")
            t.set(h)
            sc.tasks.append(t)
            sc.handles[id(t)] = h
        elif op == "contact":
            k, t = dyn.gen_contact(g, sc)
            if t is not None:
                h = t.add(s)
                t.configure(h, f"k{len(steps)}")
                t.set(h)
                sc.tasks.append(t)
                sc.handles[id(t)] = h
            h = k.add(s, sc.handles)
            k.set(h)
            sc.contacts.append(k)
            sc.handles[id(k)] = h
        elif op == "remove-task":
            free = [t for t in sc.tasks if not any(k.task is t for k in sc.contacts)]
            if not free:
                continue
            t = g.choice(free)
            h = sc.handles.pop(id(t))
            if t.parts() == [t]:
                s.remove_task(h)
            elif t.kind == "frame":
                s.remove_task(h)
            else:
                s.remove_task(h.position())
                s.remove_task(h.orientation())
            sc.tasks.remove(t)
            changed = True
            op = f"remove {t.kind}"
        elif op == "remove-contact":
            if not sc.contacts:
                continue
            k = g.choice(sc.contacts)
            s.remove_contact(sc.handles.pop(id(k)))
            sc.contacts.remove(k)
            changed = True
            op = f"remove {k.kind}"
        elif op in ("configure", "retarget"):
            if not sc.tasks:
                continue
            t = g.choice(sc.tasks)
            if op == "configure":
                t.priority = "hard" if g.boolean(0.2) else "soft"
                t.weight, t.weight2 = g.pos(0.05, 20), g.pos(0.05, 20)
                if not t.torque:
                    t.kp, t.kd = g.pos(1, 500), g.choice([-1.0, g.pos(0.1, 30)])
                dyn.sync(t)
                t.configure(sc.handles[id(t)], f"t{len(steps)}")
            else:
                for p in t.parts():
                    if not p.torque and p.kind != "gear":
                        p.dtarget = g.gauss_vec(len(p.dtarget))
                    if p.kind in ("position", "com", "relative_position", "joints"):
                        p.target = p.target + g.gauss_vec(len(p.target)) * 0.1
                    if p.kind in ("orientation", "relative_orientation"):
                        p.R = g.rotation(0.3) @ p.R
                if t.kind in ("frame", "relative_frame"):
                    t.Tt = rb.T_of(t.ori.R, t.pos.target)
                t.set(sc.handles[id(t)])
            changed = True
        elif op == "gains":
            if g.boolean():
                kp = g.pos(1, 500)
                s.set_kp(kp)
            else:
                kp = None
            kd = g.choice([None, -1.0, g.pos(0.1, 30)])
            if kd is not None:
                s.set_kd(kd)
            for t in sc.tasks:
                if not t.torque:
                    t.kp, t.kd = t.kp if kp is None else kp, t.kd if kd is None else kd
                    dyn.sync(t)
            changed = True
        elif op == "toggle":
            if not sc.contacts:
                continue
            k = g.choice(sc.contacts)
            k.active = not k.active
            k.mu = g.pos(0.1, 2)
            k.set(sc.handles[id(k)])
            changed = True
        elif op == "move":
            sc.q = rb.gen_q(g, c.robot, shrink=0.05)
            sc.qd = g.gauss_vec(c.nv) * g.choice([0.0, 0.5])
            rb.set_q(c.robot, sc.q, sc.qd)
            changed = True
        elif op == "options":
            sc.mask_base = g.boolean(0.4)
            sc.dt = g.choice([0.005, 0.05])
            sc.damping = g.choice([0.0, g.pos(1e-3, 1)])
            sc.gravity_only = g.boolean(0.3)
            sc.torque_cost = g.pos(1e-4, 1e-1)
            sc.extra = g.choice([np.zeros(c.nv), g.vec(c.nv, -2, 2)]) if sc.extra is not None else (g.vec(c.nv, -2, 2) if g.boolean(0.3) else None)
            for j in c.names:
                if g.boolean(0.2):
                    sc.qdd_safe[j] = g.pos(0.1, 50)
                if g.boolean(0.15):
                    sc.overrides[j] = g.pos(0.5, 50)
            sc.torque_limits, sc.velocity_limits, sc.joint_limits, sc.vs_torque = g.boolean(0.3), g.boolean(0.3), g.boolean(0.2), g.boolean(0.15)
            sc.options(s)
            changed = True
        elif op == "clear":
            s.clear()
            sc.tasks, sc.contacts, sc.handles, avoid, avoid_h = [], [], {}, [], []
            t = dyn.gen_task(g, c, sc.q, sc.qd)
            t.priority = "soft"
            dyn.sync(t)
            h = t.add(s)
            t.configure(h, "again")
            t.set(h)
            sc.tasks.append(t)
            sc.handles[id(t)] = h
            changed = True
        elif op == "avoid":
            w = g.pos(0.1, 10)
            if g.boolean():
                h = s.add_avoid_self_collisions_constraint()
            else:
                h = placo.AvoidSelfCollisionsDynamicsConstraint()
                s.add_constraint(h)
                keep.append(h)
            h.configure("a", "soft", w)
            avoid.append(w)
            avoid_h.append(h)
        elif op == "remove-avoid":
            if not avoid:
                continue
            i = g.integer(0, len(avoid) - 1)
            s.remove_constraint(avoid_h.pop(i))
            avoid.pop(i)
            changed = True
        else:
            if compare(sc, s, g, avoid, "history") is not None:
                compared += 1
                g.nt(changed)
        steps.append(op)
        g.cls(op.split()[0])
    g.note(steps=steps, **sc.describe())
    if compare(sc, s, g, avoid, "history") is not None:
        compared += 1
        g.nt(changed)
    if not compared:
        raise Discard
    # tasks kept by the caller survive the solver
    if g.boolean():
        del s
        import gc
        gc.collect()
    for h in keep:
        if hasattr(h, "kp"):
            h.kp = 3.0
            check("owned-task-dead", h.kp == 3.0)


def f_integrate(g):
    """Solving with integration advances the state by the returned acceleration; without it, the state does not move."""
    sc = dyn.gen_scene(g, n_contacts=1, n_tasks=2, limits=g.boolean(0.3))
    c, r = sc.c, sc.c.robot
    sp, reg0 = dyn.domain(sc)
    g.note(**sc.describe())
    s = sc.build()
    res0 = s.solve()
    check("refused", res0.success)
    close("moved-without-integration", r.state.q, sc.q, atol=0)
    close("moved-without-integration", r.state.qd, sc.qd, atol=0)
    if sc.dt == 0:
        raises("integrate-without-dt", lambda: s.solve(True))
        g.nt()
        return
    steps = g.integer(1, 4)
    moved = False
    for i in range(steps):
        q0, qd0 = np.array(r.state.q), np.array(r.state.qd)
        res = s.solve(True)
        if not res.success and i > 0:  # the state reached may well be infeasible
            break
        check("refused", res.success)
        qdd = np.array(res.qdd).reshape(-1).copy()
        if i == 0:
            close("integrate-changes-result", qdd, np.array(res0.qdd).reshape(-1), atol=1e-9, rtol=1e-9)
        total = sum((k.J(q0, qd0).T @ np.array(sc.handles[id(k)].wrench).reshape(-1) for k in sc.live()), np.zeros(c.nv))
        close("integrate-wrenches", np.array(res.tau_contacts).reshape(-1), total, atol=1e-7 * (1 + np.abs(total).max()))
        if sc.mask_base:
            qdd[:6] = 0
        q1, v1, a1 = np.array(r.state.q), np.array(r.state.qd), np.array(r.state.qdd)
        close("state-qdd", a1, qdd, atol=1e-12)
        close("state-qd", v1, qd0 + sc.dt * qdd, atol=1e-10, rtol=1e-10)
        if sc.dt * max(np.linalg.norm(v1[3:6]), np.linalg.norm(qd0[3:6])) > 2:
            raise Discard  # more than half a turn in a step
        # q + dt qd + dt^2/2 qdd, up to the choice of the velocity used over the step
        d = kin_diff(c, q0, q1)
        lo, hi = np.minimum(qd0, v1), np.maximum(qd0, v1)
        check("state-q", np.all(d >= sc.dt * lo - 1e-9) and np.all(d <= sc.dt * hi + 1e-9), lambda: f"moved by {d} over {sc.dt} s with a velocity from {qd0} to {v1}")
        moved = moved or np.abs(d).max() > 1e-6
        if sc.mask_base:
            g.cls("masked base")
        # the scene follows, to remain in the domain
        sc.q, sc.qd = q1, v1
        r.update_kinematics()
        if i + 1 < steps:
            try:
                dyn.domain(sc)
            except Discard:
                break
    g.nt(moved)


def kin_diff(c, a, b):
    import pinocchio as pin
    return pin.difference(c.m, a, b)


def f_refuse(g):
    """What cannot be solved is refused: scaled tasks, unknown frames and joints, and the solver remains usable."""
    sc = dyn.gen_scene(g, n_contacts=0, n_tasks=1, limits=False, hard=0.0)
    sc.reg0 = 1e-4
    sp, reg0 = dyn.domain(sc)
    s = sc.build()
    x0 = sc.x(s.solve())
    c = sc.c
    case = g.choice(["scaled", "frame", "joint", "priority", "contact"])
    g.cls(case)
    if case == "scaled":
        t = s.add_joints_task()
        t.set_joint(g.choice(c.names), 0.1)
        t.configure("x", "scaled", 1.0)
        raises(case, lambda: s.solve())
        s.remove_task(t)
    elif case == "frame":
        f = g.choice(["", "nope", c.frames[0] + "_"])
        for fn in (lambda: s.add_position_task(f, np.zeros(3)), lambda: s.add_frame_task(f, np.eye(4)), lambda: s.add_relative_frame_task(c.frames[0], f, np.eye(4)), lambda: s.add_orientation_task(f, np.eye(3))):
            raises(case, fn)
    elif case == "contact":
        raises(case, lambda: s.get_contact(s.count_contacts() + g.integer(0, 1000)))
        raises(case, lambda: s.get_contact(-g.integer(1, 1000)))
    elif case == "joint":
        t = s.add_gear_task()
        raises(case, lambda: t.set_gear("nope", c.names[0], 1.0))
        raises(case, lambda: t.set_gear(c.names[0], "nope", 1.0))
        s.remove_task(t)
    else:
        t = s.add_com_task(np.zeros(3))
        raises(case, lambda: t.configure("x", "medium", 1.0))
        s.remove_task(t)
    res = s.solve()
    check("not-recovered", res.success)
    close("changed-by-refusal", sc.x(res), x0, atol=1e-7 * (1 + np.abs(x0).max()))
    g.nt()


FACETS = [
    Facet("optimal", f_optimal, 2500, 30000, "a contact or two tasks"),
    Facet("history", f_history, 900, 15000, "compared after a change"),
    Facet("integrate", f_integrate, 700, 10000, "the robot moved"),
    Facet("refuse", f_refuse, 150, 1500, "always"),
]
