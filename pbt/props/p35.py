"""P35: dynamics self-collision avoidance brakes approaching bodies and pushes apart those too close."""
import math
import numpy as np
import placo
import dyn
import kin
import qp
import robots as rb
from engine import Facet, Violation, Discard, close, check, raises

RULE = "A case is a random robot carrying geometries, in a generated state with dynamics tasks and a self-collision constraint; non-trivial when a pair is triggered and changes the outcome."


def gen(g, tasks=2, limits=True, contacts=("puppet", "task", "point", "fixed")):
    spec = rb.gen_robot(g, min_joints=2, max_joints=9, geoms=True, reach=0.25)
    r = rb.make(spec, 0)
    sc = dyn.gen_scene(g, n_tasks=tasks, n_contacts=1, contacts=list(contacts), limits=limits, robot=(r, spec, "random"), hard=0.2)
    if sc.dt == 0:
        sc.dt = 0.01
    D = sorted(d.min_distance for d in r.distances())
    if not D:
        raise Discard
    k = dyn.SelfCollisions(sc.c, g.flt(0.001, 0.05), g.flt(0.01, 0.3))
    if g.boolean(0.6):
        k.trigger = D[-1] + 0.01 if g.boolean(0.4) else max(1e-3, D[len(D) // 2] + 1e-4)
    if g.boolean(0.3):
        k.margin = max(1e-4, D[0] + g.flt(-0.02, 0.02))
    k.priority, k.weight = ("soft", g.pos(1, 100)) if g.boolean(0.4) else ("hard", 1.0)
    for j in sc.c.names:
        if g.boolean(0.5):
            sc.qdd_safe[j] = g.pos(0.1, 50)
    if not k.ok():
        raise Discard
    sc.cons = [k]
    return sc, k, D


def f_step(g):
    """One solve: the bounds of the triggered pairs, and of those only, are met, and the motion is the best one under them."""
    sc, k, D = gen(g)
    sp, reg0 = dyn.domain(sc)
    g.note(**sc.describe())
    g.note(q=sc.q, qd=sc.qd, distances=D[:6], margin=k.margin, trigger=k.trigger, priority=k.priority)
    s = sc.build()
    res = s.solve()
    check("refused", res.success, "the solve fails although the problem is feasible with room")
    x = sc.x(res)
    A, b = k.rows(sc)
    v = A @ x[:sc.c.nv] + b
    if k.priority == "hard" and len(b):
        check("approach", np.min(v) >= -2e-5 * (1 + np.abs(b).max()), lambda: f"{v}")
    qp.check_feasible(sp, x, tol=2e-5)
    r = qp.kkt_residual(sp, x, reg0, act_tol=2e-5 * max(1.0, np.abs(x).max() / 50))
    check("not-optimal", r <= 3e-4, lambda: f"relative residual {r:.3g} at {x}")
    act = len(b) > 0 and np.min(v) < 1e-4
    g.cls(k.priority, "triggered" if len(b) else "clear", "acting" if act else "idle",
          *(["inside margin"] if any(d < k.margin for d in D) else []), *(["penetrating"] if D[0] < 0 else []))
    g.nt(act)


def f_loop(g):
    """Closed loop from rest: joints pulled towards a collision stop at the margin."""
    spec = rb.gen_robot(g, min_joints=2, max_joints=4, geoms=True, reach=0.25)
    r = rb.make(spec, 0)
    c = dyn.DCtx(r)
    q = rb.gen_q(g, r, base=False)
    rb.set_q(r, q, np.zeros(c.nv))
    D = {(d.objA, d.objB): d.min_distance for d in r.distances()}
    if not D or min(D.values()) < 0.02:
        raise Discard
    s = placo.DynamicsSolver(r)
    s.mask_fbase(True)
    s.dt = 0.002
    safe = g.pos(1, 10)
    for j in c.names:
        s.set_qdd_safe(j, safe)
    a = s.add_avoid_self_collisions_constraint()
    a.self_collisions_margin, a.self_collisions_trigger = 0.01, g.flt(0.05, 0.3)
    a.configure("avoid", "hard", 1.0)
    t = s.add_joints_task()
    t.configure("j", "soft", 1.0)
    t.kp = g.pos(5, 60)
    goal, worst = None, 1e3
    for _ in range(8):   # a goal where bodies collide
        x = rb.gen_q(g, r, base=False)
        rb.set_q(r, x, np.zeros(c.nv))
        m = min(d.min_distance for d in r.distances())
        if m < worst:
            goal, worst = x, m
    rb.set_q(r, q, np.zeros(c.nv))
    for j in c.names:
        t.set_joint(j, float(goal[c.iq[j]]))
    s.problem.regularization = 1e-4
    low = 1.0
    g.note(distances=sorted(D.values())[:4], safe=safe, trigger=a.self_collisions_trigger)
    for _ in range(g.integer(50, 500)):
        res = s.solve(True)
        if not res.success:
            raise Discard   # several pairs can squeeze a body without any escape
        r.update_kinematics()
        v = np.array(r.state.qd)
        if np.abs(v).max() > 8:
            raise Discard   # the approach within a step is not small anymore
        m = min(d.min_distance for d in r.distances())
        low = min(low, m)
        check("collision", m >= -1e-3, f"bodies collide, distance {m}")
    g.cls("stopped" if low < 0.02 else "away")
    g.nt(low < 0.03)


def f_refuse(g):
    """Without a time step the approach velocity means nothing: refused."""
    spec = rb.gen_robot(g, min_joints=2, max_joints=4, geoms=True, reach=0.25)
    r = rb.make(spec, 0)
    rb.set_q(r, rb.gen_q(g, r))
    s = placo.DynamicsSolver(r)
    s.add_avoid_self_collisions_constraint()
    s.mask_fbase(True)
    t = s.add_joints_task()
    t.configure("j", "soft", 1.0)
    t.set_joint(list(r.joint_names())[0], 0.0)
    raises("no-time-step", lambda: s.solve())
    g.nt(True)


FACETS = [
    Facet("step", f_step, 1500, 25000, "a triggered pair limits the motion"),
    Facet("loop", f_loop, 150, 1500, "bodies came closer than 3 cm"),
    Facet("refuse", f_refuse, 50, 400, "always"),
]
