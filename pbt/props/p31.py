"""P31: hard dynamics tasks produce exactly the documented PD acceleration."""
import math
import numpy as np
import placo
import dyn
import kin
import robots as rb
from engine import Facet, Violation, Discard, close, check, raises

RULE = "A case is a robot in a generated state with one to three dynamics tasks, at least one hard; the acceleration of each hard task's quantity along the resulting motion must equal kp error + kd velocity error + feed-forward. Non-trivial when the hard tasks ask for a non zero acceleration."


def subs(t, h):
    return t.sub(h) if t.parts() != [t] else [h]


def measured(p, c, q, qd, qdd):
    """Acceleration of the task quantity by finite differences of its value along the motion (positions, angles), independent from Jacobians."""
    h = 1e-3

    def at(t):
        return rb.integ(c.m, q, qd * t + 0.5 * qdd * t * t)
    z = np.zeros(c.nv)

    def val(t):
        x = at(t)
        if p.kind in ("orientation", "relative_orientation"):
            R = c.T(x, p.f)[:3, :3] if p.kind == "orientation" else c.T(x, p.a)[:3, :3].T @ c.T(x, p.b)[:3, :3]
            return R
        e, _, _ = p.quantity(x, z, z)
        return -e
    if p.kind in ("orientation", "relative_orientation"):
        # angular velocity half a step before and after
        def om(t, h=h):
            return rb.log3(val(t + h / 2) @ val(t - h / 2).T) / h
        d1 = (om(h) - om(-h)) / (2 * h)
        d2 = (om(2 * h) - om(-2 * h)) / (4 * h)
        return (4 * d1 - d2) / 3
    d1 = (val(h) - 2 * val(0.0) + val(-h)) / (h * h)
    d2 = (val(2 * h) - 2 * val(0.0) + val(-2 * h)) / (4 * h * h)
    return (4 * d1 - d2) / 3


def pd_check(sc, res, g, fd=False):
    c, q, qd = sc.c, sc.q, sc.qd
    qdd, tau = np.array(res.qdd).reshape(-1), np.array(res.tau).reshape(-1)
    for t in sc.tasks:
        for what, got, want in dyn.read_back(t, sc.handles[id(t)]):
            close(f"{t.kind}-read-back", np.array(got, dtype=float), np.array(want, dtype=float), atol=1e-9, msg=what)
        for p, h in zip(t.parts(), subs(t, sc.handles[id(t)])):
            if t.priority != "soft":  # configured by name for certain
                check("name", h.name.startswith("t"), f"named {h.name}")
            check("priority", h.priority == p.priority, f"{h.priority} instead of {p.priority}")
            if p.torque:
                A, b = p.rows(q, qd)
                if p.priority == "hard":
                    close("torque", A @ tau, b, atol=3e-5 * (1 + np.abs(tau).max()), rtol=1e-6)
                    g.cls("hard torque")
                    g.nt(np.abs(b).max() > 1e-3)
                continue
            e, de = p.errors(q, qd)
            close(f"{p.kind}-error", np.array(h.error).reshape(-1), e, atol=1e-7, rtol=1e-7, msg=repr(p.mask))
            close(f"{p.kind}-derror", np.array(h.derror).reshape(-1), de, atol=1e-7, rtol=1e-7, msg=repr(p.mask))
            if p.priority != "hard":
                continue
            want = p._m(p.desired(q, qd), p.local(q))
            acc = p._m(p.quantity(q, qd, qdd)[2], p.local(q))
            s = 1 + np.abs(want).max() + np.abs(qdd).max()
            close(f"{p.kind}-acceleration", acc, want, atol=3e-5 * s, rtol=1e-6, msg=f"{p.mask!r}")
            if fd:
                # keep the steps small in front of the motion
                if np.abs(qdd).max() > 50 or np.abs(qd).max() > 5:
                    raise Discard
                m = p._m(measured(p, c, q, qd, qdd), p.local(q))
                close(f"{p.kind}-measured", m, want, atol=2e-3 * s, rtol=1e-3, msg=f"{p.mask!r}")
            g.cls(f"hard {p.kind}")
            g.nt(np.abs(want).max() > 1e-3)


def one_hard(sc):
    if not any(t.priority == "hard" for t in sc.tasks):
        sc.tasks[-1].priority = "hard"
        dyn.sync(sc.tasks[-1])


def f_pd(g):
    sc, sp, reg0, s, res, x = dyn.solved(g, refine=one_hard, n_tasks=3, n_contacts=2, hard=0.7)
    pd_check(sc, res, g)
    if g.boolean(0.4):
        # the same solver, once the robot moved
        sc.q = rb.gen_q(g, sc.c.robot, shrink=0.05)
        sc.qd = g.gauss_vec(sc.c.nv) * g.choice([0.0, 0.5])
        rb.set_q(sc.c.robot, sc.q, sc.qd)
        try:
            dyn.domain(sc)
        except Discard:
            return
        res = s.solve()
        check("refused", res.success)
        pd_check(sc, res, g)
        g.cls("moved")


def f_measured(g):
    def slow(sc):
        one_hard(sc)
        for t in sc.tasks:
            t.kp = min(t.kp, 30.0)
            dyn.sync(t)
    sc, sp, reg0, s, res, x = dyn.solved(g, refine=slow, n_tasks=2, n_contacts=1, hard=0.7, limits=False)
    pd_check(sc, res, g, fd=True)


def f_alone(g):
    """One hard task of each kind at large, on a robot whose base is free to follow: always reachable."""
    kind = g.choice(dyn.TASKS)

    def only(sc):
        one_hard(sc)
        sc.mask_base = False
    sc, sp, reg0, s, res, x = dyn.solved(g, refine=only, n_tasks=1, n_contacts=1, contacts=["puppet"], kinds=[kind], limits=False)
    pd_check(sc, res, g)


def f_gains(g):
    """Gains set on the solver reach every task; a negative kd is critical damping; explicit ones are used as given."""
    sc = dyn.gen_scene(g, n_tasks=3, n_contacts=1, hard=0.7, limits=False)
    one_hard(sc)
    kp, kd = g.pos(0.5, 500), g.choice([-1.0, 0.0, None, g.pos(0.1, 30)])
    for t in sc.tasks:
        if not t.torque:
            t.kp = kp
            if kd is not None:
                t.kd = kd
            dyn.sync(t)
    # the gains the tasks were created with differ
    sp, reg0 = dyn.domain(sc)
    s = placo.DynamicsSolver(sc.c.robot)
    sc.handles = {}
    for n, t in enumerate(sc.tasks):
        h = t.add(s)
        t.configure(h, f"t{n}")
        t.set(h)
        sc.handles[id(t)] = h
        for p, hh in zip(t.parts(), subs(t, h)):
            hh.kp = g.pos(0.5, 500)
            if kd is not None:
                hh.kd = g.choice([-1.0, g.flt(0, 10)])
    for k in sc.contacts:
        h = k.add(s, sc.handles)
        k.set(h)
        sc.handles[id(k)] = h
    sc.options(s)
    s.set_kp(kp)
    if kd is not None:
        s.set_kd(kd)
    g.note(**sc.describe())
    res = s.solve()
    check("refused", res.success)
    pd_check(sc, res, g)


def f_defaults(g):
    """A fresh task has kp 1000, critical damping, zero feed-forward, and a joints task only moves the joints that were set."""
    r, spec, kind = rb.pick(g, w_random=6, min_joints=2, max_joints=6)
    c = dyn.DCtx(r)
    q = rb.gen_q(g, r, shrink=0.05)
    qd = g.gauss_vec(c.nv) * 0.5
    rb.set_q(r, q, qd)
    s = placo.DynamicsSolver(r)
    s.mask_fbase(True)
    names = sorted(g.subset(c.names) or [g.choice(c.names)])
    t = s.add_joints_task()
    t.configure("j", "hard", 1.0)
    targets = {}
    steps = []
    for _ in range(g.integer(1, 4)):
        j = g.choice(names)
        how = g.integer(0, 3)
        v = g.flt(-1, 1)
        if how == 0:
            t.set_joint(j, v)
            targets[j] = [v, 0.0, 0.0]
        elif how == 1:
            dv = g.flt(-1, 1)
            t.set_joint(j, v, dv)
            targets[j] = [v, dv, 0.0]
        elif how == 2:
            dv, ddv = g.flt(-1, 1), g.flt(-1, 1)
            t.set_joint(j, v, dv, ddv)
            targets[j] = [v, dv, ddv]
        else:
            t.set_joints({j: v})
            targets.setdefault(j, [v, 0.0, 0.0])[0] = v
        steps.append((how, j))
    for j in targets:
        close("get-joint", t.get_joint(j), targets[j][0], atol=0)
    g.note(steps=steps)
    res = s.solve()
    check("refused", res.success)
    qdd = np.array(res.qdd).reshape(-1)
    for j, (v, dv, ddv) in targets.items():
        want = 1e3 * (v - q[c.iq[j]]) + 2 * math.sqrt(1e3) * (dv - qd[c.iv[j]]) + ddv
        close("default-gains", qdd[c.iv[j]], want, atol=1e-4 * (1 + abs(want)))
    close("base", qdd[:6], np.zeros(6), atol=1e-4)
    g.nt(len(targets) < len(c.names))


def f_torques(g):
    """Torque and gear tasks edited over time keep exactly the last settings of each joint."""
    r, spec, kind = rb.pick(g, w_random=6, min_joints=2, max_joints=6)
    c = dyn.DCtx(r)
    q = rb.gen_q(g, r, shrink=0.05)
    qd = g.gauss_vec(c.nv) * 0.5
    rb.set_q(r, q, qd)
    s = placo.DynamicsSolver(r)
    masked = g.boolean()
    s.mask_fbase(masked)
    t = s.add_torque_task()
    t.configure("t", "hard", 1.0)
    want = {}
    steps = []
    for _ in range(g.integer(1, 7)):
        j = g.choice(c.names)
        if want and g.boolean(0.3):
            j = g.choice(sorted(want))
            t.reset_torque(j)
            del want[j]
            steps.append(("reset", j))
        else:
            n = g.integer(0, 2)
            a = [g.flt(-2, 2), g.flt(0, 5), g.flt(0, 2)][:n + 1]
            t.set_torque(j, *a)
            want[j] = a + [0.0] * (2 - n)
            steps.append(("set", j, n))
        if g.boolean(0.3):
            s.solve()
    g.note(steps=steps)
    # the free base has no torque: all joints torques may be imposed
    res = s.solve()
    check("refused", res.success)
    tau = np.array(res.tau).reshape(-1)
    for j in want:
        w = want[j][0] - want[j][1] * q[c.iq[j]] - want[j][2] * qd[c.iv[j]]
        close("torque-setting", tau[c.iv[j]], w, atol=2e-5 * (1 + np.abs(tau).max()))
    s2 = placo.DynamicsSolver(r)
    s2.mask_fbase(masked)
    t2 = s2.add_torque_task()
    t2.configure("t", "hard", 1.0)
    for j in want:
        t2.set_torque(j, *want[j])
    close("torque-history", res.tau, s2.solve().tau, atol=1e-6 * (1 + np.abs(tau).max()))
    g.nt(any(x[0] == "reset" for x in steps) or len(set(x[1] for x in steps)) < len(steps))


FACETS = [
    Facet("pd", f_pd, 2500, 40000, "a hard task asking for an acceleration"),
    Facet("measured", f_measured, 1200, 15000, "a hard task asking for an acceleration"),
    Facet("alone", f_alone, 1500, 20000, "a hard task asking for an acceleration"),
    Facet("gains", f_gains, 600, 8000, "a hard task asking for an acceleration"),
    Facet("torques", f_torques, 300, 4000, "a joint was set twice or reset"),
    Facet("defaults", f_defaults, 300, 4000, "some joints are not in the task"),
]
