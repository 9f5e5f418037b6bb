"""P47: walk tasks make the robot track the walk trajectory."""
import math
import numpy as np
import pinocchio as pin
import placo
from engine import Facet, Violation, Discard, close, check, raises, rot
import robots as rb
from walk import *

RULE = "A case is a walk of the Sigmaban humanoid, tracked by the walk tasks or done by the dummy walk, and compared with its targets through forward kinematics; or walk tasks updated with arbitrary targets."


def errors_of(w):
    d = w.get_tasks_error()
    out = {}
    for k in d.keys():
        out.setdefault(k[:-2], np.zeros(3))["xyz".index(k[-1])] = d[k]
    return out


def actual(r, L, R, c, trunk, trunk_mode):
    """Errors to the targets, from the configuration."""
    q = np.array(r.state.q, float)
    m = r.model
    f = {n: rb.frame_T(m, q, n) for n in ("left_foot", "right_foot", "trunk")}
    com = pin.centerOfMass(m, m.createData(), q)
    out = {}
    for n, T in (("left_foot", L), ("right_foot", R)):
        out[n + "_position"] = T[:3, 3] - f[n][:3, 3]
        out[n + "_orientation"] = rb.log3(T[:3, :3] @ f[n][:3, :3].T)
    out["trunk_orientation"] = rb.log3(trunk @ f["trunk"][:3, :3].T)
    if trunk_mode:
        out["trunk_position"] = c - f["trunk"][:3, 3]
    else:
        out["com_position"] = c - com
    return out


def compare(w, want, msg):
    got = errors_of(w)
    check("error-names", sorted(got) == sorted(want), f"{msg}: {sorted(got)} rather than {sorted(want)}")
    if any(np.linalg.norm(v) > math.pi - 1e-3 for k, v in want.items() if "orientation" in k):
        raise Discard  # a half turn has two errors
    for k in want:
        close("error-" + k, got[k], want[k], atol=1e-7, msg=msg)


def trunk_offset(r, w):
    R = rb.frame_T(r.model, np.array(r.state.q, float), "trunk")[:3, :3]
    return R @ np.array([w.com_x, w.com_y, 0])


def far(R, f):
    return pin.log3(R @ f.T)


def handles(w, tgt, msg):
    """The tasks of the walk, handed out to the caller, hold the targets."""
    L, R, c, Rt, mode = tgt
    close("left-handle", w.left_foot_task.T_world_frame, L, atol=1e-9, msg=msg)
    close("right-handle", w.right_foot_task.T_world_frame, R, atol=1e-9, msg=msg)
    close("trunk-handle", w.trunk_orientation_task.R_world_frame, Rt, atol=1e-9, msg=msg)
    check("com-handle", (w.trunk_task is not None) == mode and (w.com_task is not None) == (not mode), f"{msg}: trunk mode {mode}, {w.trunk_task} {w.com_task}")
    close("com-handle", (w.trunk_task if mode else w.com_task).target_world, c, atol=1e-9, msg=msg)


def f_targets(g):
    """Explicit targets, modes toggled, tasks removed and initialised again: the tasks are the ones asked for."""
    r = rb.sigmaban()
    q = rb.gen_q(g, r, scale=0.3)
    rb.set_q(r, q)
    s = placo.KinematicsSolver(r)
    s.add_regularization_task(1e-4)
    mine = None
    if g.boolean():
        j = g.choice(list(r.joint_names()))
        mine = {j: g.flt(-0.5, 0.5)}
        jt = s.add_joints_task()
        jt.set_joints(mine)
        jt.configure("mine", "soft", 1e-2)
    w = placo.WalkTasks()
    mode = False
    n = g.integer(3, 12)
    live = False
    ups = toggles = removes = 0

    def frames():
        A = rb.oracle_frames(r, np.array(r.state.q, float))
        out = []
        for name in ("left_foot", "right_foot"):
            T = np.array(A[name])
            T[:3, 3] += g.vec(3, -0.1, 0.1)
            T[:3, :3] = T[:3, :3] @ rot(g.unit(3), g.flt(-1, 1))
            out.append(T)
        return out[0], out[1], A["trunk"][:3, 3] + g.vec(3, -0.1, 0.1), A["trunk"][:3, :3] @ rot(g.unit(3), g.flt(-1, 1))
    tgt = None
    for _ in range(n):
        if not live:
            w.scaled = g.boolean(0.3)
            w.trunk_mode = mode = g.boolean()
            w.initialize_tasks(s, r)
            live = True
            A = rb.oracle_frames(r, np.array(r.state.q, float))
            c = A["trunk"][:3, 3] if mode else pin.centerOfMass(r.model, r.model.createData(), np.array(r.state.q, float))
            tgt = (A["left_foot"], A["right_foot"], np.array(c), A["trunk"][:3, :3], mode)
            compare(w, actual(r, *tgt), "after initialisation")
            continue
        op = g.weighted([(5, "update"), (2, "mode"), (2, "solve"), (2, "offset"), (1, "move"), (1, "remove")])
        if op == "mode":
            mode = not mode
            w.trunk_mode = mode
            toggles += 1
        elif op == "offset":
            w.com_x, w.com_y = g.flt(-0.1, 0.1), g.flt(-0.1, 0.1)
        elif op == "move":
            rb.set_q(r, rb.gen_q(g, r, scale=0.3))
        elif op == "update":
            L, R, c, Rt = frames()
            off = trunk_offset(r, w)
            w.update_tasks(L, R, c, Rt)
            tgt = (L, R, c + off, Rt, mode)
            ups += 1
        elif op == "solve":
            # the solver does what independent tasks with these targets do
            L, R, c, Rt, md = tgt
            ref = placo.KinematicsSolver(r)
            ref.add_regularization_task(1e-4)
            pr = "scaled" if w.scaled else "soft"
            if mine:
                t = ref.add_joints_task()
                t.set_joints(mine)
                t.configure("mine", "soft", 1e-2)
            ref.add_frame_task("left_foot", L).configure("l", pr, 1.0, 1.0)
            ref.add_frame_task("right_foot", R).configure("r", pr, 1.0, 1.0)
            ref.add_orientation_task("trunk", Rt).configure("t", pr, 1.0)
            if md:
                ref.add_position_task("trunk", c).configure("p", pr, 1.0)
            else:
                ref.add_com_task(c).configure("c", pr, 1.0)
            a, b = np.array(s.solve(False)), np.array(ref.solve(False))
            close("solve", a, b, atol=1e-5 * (1 + np.abs(b).max()), msg="motion with the walk tasks")
        elif op == "remove":
            w.remove_tasks()
            live = False
            removes += 1
            a = np.array(s.solve(False))
            if mine:
                ref = placo.KinematicsSolver(r)
                ref.add_regularization_task(1e-4)
                t = ref.add_joints_task()
                t.set_joints(mine)
                t.configure("mine", "soft", 1e-2)
                close("removed", a, np.array(ref.solve(False)), atol=1e-8, msg="motion once the walk tasks are removed")
            else:
                close("removed", a, np.zeros(len(a)), atol=1e-8, msg="motion once the walk tasks are removed")
            continue
        compare(w, actual(r, *tgt), op)
        handles(w, tgt, op)
    g.note(operations=n, updates=ups, toggles=toggles, removes=removes)
    g.nt(ups > 0)
    g.cls(*(["toggled"] if toggles else []), *(["removed"] if removes else []))


def walker_parameters(g):
    p = placo.HumanoidParameters()
    p.single_support_duration = g.pos(0.15, 0.4)
    p.single_support_timesteps = g.integer(6, 12)
    p.double_support_ratio = g.weighted([(1, 0.0), (1, g.flt(0.2, 1.0))])
    p.startend_double_support_ratio = g.flt(0.8, 2.0)
    p.feet_spacing = g.flt(0.12, 0.15)
    p.foot_width, p.foot_length = 0.07, 0.12
    p.zmp_margin = g.flt(0.0, 0.02)
    p.walk_com_height = g.flt(0.26, 0.31)
    p.walk_foot_height = g.pos(0.01, 0.04)
    p.walk_foot_rise_ratio = g.flt(0.05, 0.4) if g.boolean(0.7) else g.flt(0.4, 0.7)
    p.walk_trunk_pitch = g.flt(-0.2, 0.2)
    p.walk_max_dx_forward, p.walk_max_dx_backward, p.walk_max_dy, p.walk_max_dtheta = 0.06, 0.03, 0.03, 0.25
    p.walk_dtheta_spacing = 0.05
    return p


def solve(r, s, n):
    for _ in range(n):
        r.update_kinematics()
        s.solve(True)
    r.update_kinematics()


def at_limit(r):
    """Some leg joint is (nearly) at its limit."""
    m, q = r.model, np.array(r.state.q, float)
    for n in r.joint_names():
        if any(k in n for k in ("hip", "knee", "ankle")):
            i = m.joints[m.getJointId(n)].idx_q
            if min(q[i] - m.lowerPositionLimit[i], m.upperPositionLimit[i] - q[i]) < 1e-3:
                return True
    return False


def f_walk(g):
    r = rb.sigmaban()
    p = walker_parameters(g)
    mode = g.boolean(0.3)
    s = placo.KinematicsSolver(r)
    w = placo.WalkTasks()
    w.scaled = g.boolean(0.2)
    w.trunk_mode = mode
    w.initialize_tasks(s, r)
    T0 = flat(g.flt(-1, 1), g.flt(-1, 1), g.flt(-3, 3))
    if mode:
        p.walk_com_height = g.flt(0.21, 0.25)
    if g.boolean(0.15):
        T0[2, 3] = g.flt(-0.05, 0.05)
    w.reach_initial_pose(T0, p.feet_spacing, p.walk_com_height, p.walk_trunk_pitch)
    r.update_kinematics()
    R0 = opposite(p, LEFT, T0)
    yaw = yaw_of(T0)
    tgt = ((T0[:3, 3] + R0[:3, 3]) / 2)
    tgt[2] = p.walk_com_height
    e = actual(r, T0, R0, tgt, rot([0, 0, 1], yaw) @ rot([0, 1, 0], p.walk_trunk_pitch), mode)
    compare(w, e, "initial pose")
    if at_limit(r):
        raise Discard
    for k in e:
        close("initial-pose", e[k], np.zeros(3), atol=1e-4, msg=k)
    if T0[2, 3] != 0:
        g.nt()
        return
    pl = placo.FootstepsPlannerRepetitive(p)
    pl.configure(*map(float, g.vec(3, -1, 1) * np.array([0.05, 0.02, 0.2])), g.integer(1, 4))
    fs = pl.plan(g.choice([LEFT, RIGHT]), T0, R0)
    sup = placo.FootstepsPlanner.make_supports(fs, 0.0, True, p.has_double_support(), True)
    wpg = placo.WalkPatternGenerator(r, p)
    try:
        tr = wpg.plan(sup, np.array(r.com_world()), 0.0)
    except RuntimeError:
        raise Discard
    if not mode:
        w.com_x, w.com_y = g.weighted([(1, (0.0, 0.0)), (1, (g.flt(-0.01, 0.01), g.flt(-0.01, 0.01)))])
    t, n = 0.0, 0
    dt = g.flt(0.02, 0.06)
    flying = 0
    while t < tr.t_end:
        t += dt
        off = trunk_offset(r, w)
        w.update_tasks_from_trajectory(tr, t)
        L, R, c, Rt = np.array(tr.get_T_world_left(t)), np.array(tr.get_T_world_right(t)), np.array(tr.get_p_world_CoM(t)) + off, np.array(tr.get_R_world_trunk(t))
        if n < 3 or n % 5 == 0:
            compare(w, actual(r, L, R, c, Rt, mode), f"at {t}")
        solve(r, s, 4)
        n += 1
        if L[2, 3] > 1e-3 or R[2, 3] > 1e-3:
            flying += 1
        if at_limit(r):  # out of reach
            g.cls("limit")
            break
        e = actual(r, L, R, c, Rt, mode)
        for k in e:
            close("tracking-" + k, e[k], np.zeros(3), atol=5e-4, msg=f"{k} at {t} of {tr.t_end}")
    g.note(times=n, supports=len(sup), trunk_mode=mode, flying=flying)
    g.nt(flying >= 3)
    g.cls("trunk" if mode else "com", "scaled" if w.scaled else "soft")
    w.remove_tasks()
    close("removed", np.array(s.solve(False)), np.zeros(r.model.nv), atol=1e-5)


def f_dummy(g):
    r = rb.sigmaban()
    p = walker_parameters(g)
    p.walk_com_height = g.flt(0.2, 0.29)
    d = placo.DummyWalk(r, p)
    st = {"left": flat(0, p.feet_spacing / 2, 0), "right": flat(0, -p.feet_spacing / 2, 0)}

    def planned(sup_left, st, step):
        pl = placo.FootstepsPlannerRepetitive(p)
        pl.configure(*map(float, step), 2)
        return np.array(pl.plan(RIGHT if sup_left else LEFT, st["left"], st["right"])[2].frame)

    def verify(msg):
        check("support-side", d.support_left == sup_left, f"{msg}: support_left is {d.support_left}")
        close("left-foot", np.array(d.T_world_left), st["left"], atol=1e-9, msg=msg)
        close("right-foot", np.array(d.T_world_right), st["right"], atol=1e-9, msg=msg)
        close("next-foot", np.array(d.T_world_next), nxt, atol=1e-9, msg=msg)
    sup_left = False
    nxt = planned(sup_left, st, (0, 0, 0))
    verify("initially")
    if g.boolean():
        sup_left = g.boolean()
        d.reset(sup_left)
        nxt = planned(sup_left, st, (0, 0, 0))
        verify("after a reset")
    n = g.integer(1, 5)
    moved = 0
    for k in range(n):
        if g.boolean(0.15):
            sup_left = g.boolean()
            d.reset(sup_left)
            st = {"left": flat(0, p.feet_spacing / 2, 0), "right": flat(0, -p.feet_spacing / 2, 0)}
            nxt = planned(sup_left, st, (0, 0, 0))
            verify("after a reset")
        if g.boolean(0.25):
            # the support is elsewhere: everything moves with it, the robot as well
            M = flat(g.flt(-2, 2), g.flt(-2, 2), g.flt(-3, 3), g.flt(-0.5, 0.5))
            M[:3, :3] = M[:3, :3] @ rot([1, 0, 0], g.flt(-0.3, 0.3))
            F = np.array(placo.flatten_on_floor(M))
            cur = st["left" if sup_left else "right"]
            T = F @ np.linalg.inv(cur)
            st = {a: T @ b for a, b in st.items()}
            nxt = T @ nxt
            joints = np.array(r.state.q)[7:]
            d.update_T_world_support(M)
            verify("after moving the support")
            close("moved-joints", np.array(r.state.q)[7:], joints, atol=1e-12)
            close("moved-support", rb.frame_T(r.model, np.array(r.state.q, float), "left_foot" if sup_left else "right_foot"), F, atol=1e-8)
            moved += 1
        step = g.vec(3, -1, 1) * np.array([0.05, 0.025, 0.25]) * g.choice([1.0, 1.0, 1.0, 3.0])
        d.next_step(*map(float, step))
        st["right" if sup_left else "left"] = nxt
        sup_left = not sup_left
        nxt = planned(sup_left, st, step)
        verify(f"step {k}")
        close("command", [d.dx, d.dy, d.dtheta], step, atol=1e-12)
        # relative to the support, the target is the neutral stance plus the command (spread and clipped)
        want, _ = clipped_step(p, LEFT if sup_left else RIGHT, step, "conic")
        if want is not None:
            close("step", nxt, opposite(p, LEFT if sup_left else RIGHT, st["left" if sup_left else "right"], want), atol=1e-8)
        times = [0.0, *sorted(g.flt(0.02, 0.98) for _ in range(g.integer(1, 3))), 1.0]
        u0 = 0.0
        for u in times:
            for v in np.linspace(u0, u, max(2, int((u - u0) / 0.1)))[1:]:
                d.update(float(v))
            u0 = u
            for _ in range(3):
                d.update(float(u))
            q = np.array(r.state.q, float)
            if at_limit(r):  # out of reach
                g.cls("limit")
                return
            sf, ff = ("left_foot", "right_foot") if sup_left else ("right_foot", "left_foot")
            A = rb.frame_T(r.model, q, sf)
            B = rb.frame_T(r.model, q, ff)
            close("support-foot", A, st["left" if sup_left else "right"], atol=2e-4, msg=f"at {u} of step {k}")
            S = st["right" if sup_left else "left"]
            a = yaw_of(S)
            h = p.walk_foot_height
            lo, hi = 0.5 - p.walk_foot_rise_ratio / 2, 0.5 + p.walk_foot_rise_ratio / 2
            z = hermite((0, 0, 0), (lo, h, 0), u) if u < lo else (h if u <= hi else hermite((hi, h, 0), (1, 0, 0), u))
            want = flat(*((1 - u) * S[:2, 3] + u * nxt[:2, 3]), a + u * wrap(yaw_of(nxt) - a), z)
            close("swing-foot", B, want, atol=2e-4, msg=f"at {u} of step {k}")
            L, R = (st["left"], want) if sup_left else (want, st["right"])
            y = yaw_of(L)
            mid = flat(*((L + R) / 2)[:2, 3], y + wrap(yaw_of(R) - y) / 2)
            X = mid @ flat(0.05, 0, 0, p.walk_com_height)
            X[:3, :3] = X[:3, :3] @ rot([0, 1, 0], p.walk_trunk_pitch)
            close("trunk", rb.frame_T(r.model, q, "trunk"), X, atol=2e-4, msg=f"at {u} of step {k}")
    g.note(steps=n, moved=moved)
    g.nt(n >= 2)
    g.cls(*(["moved"] if moved else []))


FACETS = [
    Facet("targets", f_targets, 800, 12000, "tasks updated with targets away from the robot"),
    Facet("walk", f_walk, 300, 5000, "a swing was tracked"),
    Facet("dummy", f_dummy, 400, 6000, "two steps or more"),
]
