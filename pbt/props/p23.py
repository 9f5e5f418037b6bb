"""P23: repeated solving converges to reachable targets within the limits."""
import numpy as np
import placo
import kin
import qp
import robots as rb
from engine import Facet, Violation, Discard, close, check, raises

RULE = "A case is a robot, a goal configuration within its limits and near the current one, and a mix of compatible tasks taken from the goal; the solve/apply loop is run and the actual frames, CoM, joints and distances are compared with the targets. Non-trivial when the initial error is above 1e-3."

KINDS = ["position", "orientation", "relative_position", "relative_orientation", "frame", "relative_frame", "com", "joints", "distance", "axisalign"]


def errors(sc, q):
    return [float(np.linalg.norm(p.err(q))) for t in sc.tasks for p in t.parts()]


def singular_values(sc, q, cols):
    A = np.vstack([np.atleast_2d(p.jac(q)) for t in sc.tasks for p in t.parts()])
    return np.linalg.svd(A[:, cols], compute_uv=False) if cols.any() else np.zeros(0)


def reference_converges(sc, n):
    """The same loop with tasks evaluated by the oracle."""
    q = np.array(sc.q)
    for _ in range(n):
        sp = sc.spec(q)
        p, v = qp.build(sp, {})
        if not qp.solve(p):
            return False
        q = rb.integ(sc.c.m, q, qp.values(v)[:sc.c.nv])
        if max(errors(sc, q)) < 1e-6:
            return True
    return False


def f_converge(g):
    sc = kin.gen_scene(g, n_tasks=4, kinds=KINDS, prios=("soft", "hard", "scaled"), masks=False, regs=False, reach=0.15)
    c, r = sc.c, sc.c.robot
    # the goal: within the limits
    goal = np.array(sc.goal)
    for j in c.names:
        lo, up = sc.limits[j]
        if lo > -rb.BIG:
            m = 0.02 * (up - lo)
            goal[c.iq[j]] = min(max(goal[c.iq[j]], lo + m), up - m)
    sc.mask_base = g.boolean(0.3)
    if sc.mask_base:
        goal[:7] = sc.q[:7]
    masked = [j for j in c.names if g.boolean(0.1)]
    sc.masked = masked
    for j in masked:
        goal[c.iq[j]] = sc.q[c.iq[j]]
    regen = []
    for t in sc.tasks:
        p, w, w2 = t.priority, t.weight, getattr(t, "weight2", None)
        n = kin.gen_task(g, c, goal, [t.kind], dt=1.0, spread=0.0)
        n.priority, n.weight = p, w
        if w2 is not None:
            n.weight2 = w2
            n.pos.priority = n.ori.priority = p
            n.pos.weight, n.ori.weight = w, w2
        regen.append(n)
    sc.tasks = regen
    if kin.degenerate(sc, sc.q):
        raise Discard
    # in the neighbourhood of the goal the tasks have to be regular
    cols = np.ones(c.nv, bool)
    if sc.mask_base:
        cols[:6] = False
    for j in masked:
        cols[c.iv[j]] = False
    sv = singular_values(sc, goal, cols)
    rank = int(np.sum(sv > 1e-9))
    if rank and sv[rank - 1] < 0.02:
        raise Discard
    hard = [np.atleast_2d(p.jac(goal)) for t in sc.tasks for p in t.parts() if p.priority == "hard"]
    if hard:
        H = np.vstack(hard)[:, cols]
        s = np.linalg.svd(H, compute_uv=False)
        if H.shape[0] > H.shape[1] or s[-1] < 0.05:
            raise Discard
    # a scaled task at its goal has no direction: it needs to be reachable on its own
    sca = [np.atleast_2d(p.jac(goal)) for t in sc.tasks for p in t.parts() if p.priority == "scaled"]
    if sca:
        H = np.vstack(hard + sca)[:, cols]
        s = np.linalg.svd(H, compute_uv=False)
        if H.shape[0] > H.shape[1] or s[-1] < 0.05:
            raise Discard
    g.note(**sc.describe())
    s = sc.build()
    e0 = max(errors(sc, sc.q))
    n = 80 if not sc.vel else 0
    if sc.vel:
        # enough time to get there
        slow = max([abs(goal[c.iq[j]] - sc.q[c.iq[j]]) / (sc.vmax[j] * sc.dt) for j in c.names] + [0])
        if slow > 60:
            raise Discard
        n = 80 + int(4 * slow)
    q = np.array(sc.q)
    it = 0
    worst, stuck = 1.0, set()
    for it in range(n):
        if (hard or sca) and (sc.lim or sc.vel) and kin.witness(sc.spec(q)) is None:
            raise Discard  # the linearised problem has no solution (with some room): the step is too far away for the limits
        try:
            r.update_kinematics()
            s.solve(True)
        except RuntimeError as e:
            # hard rows may be out of reach of one step: only a linearisation issue when far
            if hard or sca or sc.vel:
                raise Discard
            raise Violation("refused", f"iteration {it}: {e}")
        q1 = np.array(r.state.q)
        for j in c.names:
            lo, up = sc.limits[j]
            if sc.lim:
                check("limits", lo - 3e-4 <= q1[c.iq[j]] <= up + 3e-4, f"iteration {it} {j}: {q1[c.iq[j]]} out of [{lo}, {up}]")
            if sc.vel:
                check("velocity", abs(q1[c.iq[j]] - q[c.iq[j]]) <= sc.vmax[j] * sc.dt + 3e-4, f"iteration {it} {j}")
        for j in masked:
            check("masked", abs(q1[c.iq[j]] - sc.q[c.iq[j]]) < 3e-4, j)
        if np.max(np.abs(q1 - q)) > 10:
            raise Discard  # no real solution to the hard rows: only one through rounding errors
        q = q1
        if it % 5 == 0 or it == n - 1:
            worst = min([worst] + list(singular_values(sc, q, cols)[rank - 1:rank]))
        stuck = {j for j in c.names if sc.lim and (q[c.iq[j]] < sc.limits[j][0] + 1e-3 or q[c.iq[j]] > sc.limits[j][1] - 1e-3)}
        if max(errors(sc, q)) < 1e-6:
            break
    r.update_kinematics()
    ef = errors(sc, q)
    if max(ef) >= 2e-5:
        if max(ef) > max(0.3 * e0, 0.2) or worst < 0.02 or stuck:
            raise Discard  # not near enough: another minimum, a singularity or limits in the way
        if not reference_converges(sc, n):
            raise Discard  # the ideal loop stops at another minimum as well
    check("not-converged", max(ef) < 2e-5, lambda: f"errors {ef} after {it + 1} iterations, from {e0}")
    # the same in terms of the robot's own queries
    for t in sc.tasks:
        for p in t.parts():
            if p.mask is not None:
                continue
            if p.kind == "position":
                close("frame-position", np.array(r.get_T_world_frame(p.f))[:3, 3], p.target, atol=1e-4)
            elif p.kind == "orientation":
                close("frame-orientation", np.array(r.get_T_world_frame(p.f))[:3, :3], p.R, atol=1e-4)
            elif p.kind == "relative_position":
                close("relative-position", np.array(r.get_T_a_b(p.a, p.b))[:3, 3], p.target, atol=1e-4)
            elif p.kind == "relative_orientation":
                close("relative-orientation", np.array(r.get_T_a_b(p.a, p.b))[:3, :3], p.R, atol=1e-4)
            elif p.kind == "com":
                close("com", r.com_world(), p.target, atol=1e-4)
            elif p.kind == "joints":
                for j, v in p.t.items():
                    close("joint", r.get_joint(j), v, atol=1e-4)
        g.cls(f"{t.priority}-{t.kind}")
    g.nt(e0 > 1e-3)


FACETS = [
    Facet("converge", f_converge, 600, 15000, "the initial error is above 1e-3"),
]
