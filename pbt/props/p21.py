"""P21: a kinematics step honours hard and scaled tasks, limits and masks."""
import numpy as np
import pinocchio as pin
import placo
import kin
import qp
import robots as rb
from engine import Facet, Violation, Discard, close, check, raises

RULE = "A case is a robot in a generated state with a generated mix of tasks, masks and limits; one or two solves are checked row by row. Non-trivial when a hard or scaled task, mask or limit row is present and the displacement is not null."


def domain(sc, sp):
    if kin.degenerate(sc, sc.q):
        raise Discard
    defi, cond = kin.eq_conditioning(sp)
    if cond < 1e-3:
        raise Discard
    return defi


def f_step(g):
    sc = kin.gen_scene(g)
    c, r = sc.c, sc.c.robot
    sp = sc.spec(sc.q)
    defi = domain(sc, sp)
    s = sc.build()
    qd0, qdd0 = g.gauss_vec(c.nv), g.gauss_vec(c.nv)
    r.state.qd, r.state.qdd = qd0, qdd0
    g.note(**sc.describe())
    if g.boolean(0.3):  # an earlier solve, elsewhere
        q2 = rb.integ(c.m, sc.q, g.gauss_vec(c.nv) * 0.1)
        apply2 = g.boolean()
        if kin.witness(sc.spec(q2)) is not None:  # contradictions are the subject of P01 and P25
            rb.set_q(r, q2)
            try:
                s.solve(apply2)
            except RuntimeError:
                pass
        rb.set_q(r, sc.q)
        r.state.qd, r.state.qdd = qd0, qdd0
        g.cls("second solve")
    apply = g.boolean()
    w = None if defi else kin.witness(sp)
    if w is None and (not defi or any(k.kind == "ineq" for k in sp.cons)) and kin.witness(sp, 0.0) is None:
        raise Discard  # contradictory (the subject of P01)
    acc = kin.solver_tolerance(sp)
    try:
        dq = np.array(s.solve(apply)).reshape(-1)
    except RuntimeError as e:
        close("state-after-failure", r.state.q, sc.q, atol=0)
        check("feasible-refused", w is None or acc > 1e-6 or kin.numerically_refused(s), lambda: f"{e} although dq={w} meets all the hard rows with room")
        g.cls("refused")
        return
    check("size", dq.shape == (c.nv,), str(dq.shape))
    check("finite", np.all(np.isfinite(dq)))
    x = dq
    if sc.scaled():
        lam = s.scale
        check("scale-range", -2e-5 - min(10 * acc, 1e-3) <= lam <= 1 + 2e-5 + min(10 * acc, 1e-3), f"scale {lam}")
        x = np.concatenate([dq, [lam]])
        g.cls("scaled")
        if lam < 1 - 1e-4:
            g.cls("scaled-down")
    for k in sp.cons:
        if k.prio != "hard":
            continue
        res = k.A @ x + k.b
        tol = 2e-6 * (1 + np.max(np.abs(k.A) @ np.abs(x)) + min(1e3, np.max(np.abs(k.b)))) + 1e-14 * np.max(np.abs(x)) + min(10 * acc, 1e-3)  # entries of the matrices are only known to rounding
        name = ("scaled-" if getattr(k, "scaled", False) else "") + k.form
        if k.kind == "eq":
            check(name, np.max(np.abs(res)) <= tol, lambda: f"residual {res} dq={dq}")
        else:
            check(name, np.min(res) >= -tol, lambda: f"violated by {res} dq={dq}")
        g.cls(name)
        g.nt(np.abs(dq).max() > 1e-4)
    if np.abs(dq).max() > 1e6:  # contradictory rows up to rounding errors
        g.cls("huge")
        return
    q1 = np.array(r.state.q)
    if not apply:
        close("state-untouched", q1, sc.q, atol=0)
        close("state-untouched", r.state.qd, qd0, atol=0)
        close("state-untouched", r.state.qdd, qdd0, atol=0)
    else:
        want = rb.integ(c.m, sc.q, dq)
        close("applied", np.array(r.state.q), want, atol=1e-12, rtol=1e-12)
        if sc.dt > 0:
            v = pin.difference(c.m, sc.q, want) / sc.dt  # the shortest rotation of the base when it turns by more than half a turn
            if np.linalg.norm(dq[3:6]) < 3:
                close("applied-velocity", v, dq / sc.dt, atol=1e-6, rtol=1e-5)
                v = dq / sc.dt
            close("applied-velocity", r.state.qd, v, atol=1e-6, rtol=1e-5)
            close("applied-acceleration", r.state.qdd, (v - qd0) / sc.dt, atol=1e-6, rtol=1e-5)
        else:
            close("applied-velocity", r.state.qd, qd0, atol=0)
            close("applied-acceleration", r.state.qdd, qdd0, atol=0)
        if sc.lim:
            for j in c.names:
                lo, up = sc.limits[j]
                check("joint-limits", lo - 1e-5 - min(10 * acc, 1e-3) <= q1[c.iq[j]] <= up + 1e-5 + min(10 * acc, 1e-3), f"{j}: {q1[c.iq[j]]} out of [{lo}, {up}]")
        g.cls("applied")


def f_outside(g):
    """From a configuration beyond a limit, one step brings the joint back within it (or the solve is refused); disabled limits do not act."""
    spec = rb.gen_robot(g, min_joints=1, max_joints=5, limited=1.0)
    r = rb.make(spec)
    c = kin.Ctx(r)
    q = rb.gen_q(g, r)
    outs = g.subset(c.names, 0.4) or [g.choice(c.names)]
    for j in outs:
        lo, up = (float(v) for v in r.get_joint_limits(j))
        d = g.pos(1e-3, 1.0)
        q[c.iq[j]] = up + d if g.boolean() else lo - d
    rb.set_q(r, q)
    s = placo.KinematicsSolver(r)
    t = s.add_joints_task()
    targets = {j: float(q[c.iq[j]]) + g.flt(-0.5, 0.5) for j in c.names}
    t.set_joints(targets)
    s.mask_fbase(True)
    if g.boolean(0.3):
        s.enable_joint_limits(False)
        dq = np.array(s.solve(False))
        for j in c.names:
            close("disabled-limits", dq[c.iv[j]], targets[j] - q[c.iq[j]], atol=1e-6)
        g.cls("disabled")
    else:
        dt = g.choice([0.0, 1e-4, 0.05, 10.0])
        if dt:
            s.dt = dt
            s.enable_velocity_limits(True)
        need = {j: (lambda l, x: l[0] - x if x < l[0] else (l[1] - x if x > l[1] else 0.0))([float(v) for v in r.get_joint_limits(j)], q[c.iq[j]]) for j in c.names}
        reach = all(abs(need[j]) <= dt * float(c.m.velocityLimit[c.iv[j]]) - 1e-6 for j in c.names) if dt else True
        blocked = any(abs(need[j]) > dt * float(c.m.velocityLimit[c.iv[j]]) + 1e-6 for j in c.names) if dt else False
        if blocked:
            raises("contradictory-limits", lambda: s.solve(True))
            g.cls("blocked")
        elif reach:
            dq = np.array(s.solve(True))
            for j in c.names:
                lo, up = (float(v) for v in r.get_joint_limits(j))
                v = float(r.get_joint(j))
                want = min(max(targets[j], lo), up)
                if dt:
                    vm = dt * float(c.m.velocityLimit[c.iv[j]])
                    want = min(max(want, q[c.iq[j]] - vm), q[c.iq[j]] + vm)
                close("clamped", v, want, atol=2e-5, msg=j)
            g.cls("back")
    g.note(q=q[7:], targets=targets, outside=outs)
    g.nt(True)


def f_dt(g):
    """Velocity limits cannot be enforced without a time step: asking for them raises."""
    spec = rb.gen_robot(g, max_joints=3)
    r = rb.make(spec)
    rb.set_q(r, rb.gen_q(g, r))
    s = placo.KinematicsSolver(r)
    s.add_joints_task().set_joints({j: 0.1 for j in kin.Ctx(r).names})
    s.mask_fbase(True)
    s.enable_velocity_limits(True)
    raises("velocity-limits-need-dt", lambda: s.solve(False))
    s.dt = g.flt(0.01, 1)
    s.enable_joint_limits(False)
    dq = np.array(s.solve(False))
    check("velocity-limits", np.all(np.abs(dq[6:]) <= s.dt * np.array(r.model.velocityLimit[6:]) + 1e-7))
    s.enable_velocity_limits(False)
    s.dt = 0.0
    s.solve(False)
    g.nt(True)
    g.note(dt=s.dt)


FACETS = [
    Facet("step", f_step, 2000, 40000, "hard or scaled rows, masks or limits, with a displacement above 1e-4"),
    Facet("outside", f_outside, 500, 10000, "always"),
    Facet("dt", f_dt, 60, 1000, "always"),
]
