"""P44: a walk plan is dynamically balanced, continuous and steps where planned."""
import math
import numpy as np
import placo
from engine import Facet, Violation, Discard, close, check, raises
from walk import *

RULE = "A case is a walk plan from generated parameters and footsteps, queried over its duration; non-trivial when it has two single supports or more."


def horizon(p, sup, t0):
    """The phases, at a pace for which the plan lasts at most 10 s: the jerks of a longer one are numerically out of reach
    of the QP solver (positions come from three integrations)."""
    ph = phases_of(p, sup, t0)
    T, n = ph[-1].t1 - t0, sum(f.n for f in ph)
    if n > 160:
        raise Discard
    if T > 10:
        p.single_support_duration *= 9.5 / T
        ph = phases_of(p, sup, t0)
    return ph


def make(g, nmax=8, direct=False):
    p = walk_parameters(g)
    if direct:
        p.double_support_ratio = 0.0
    pl, fs = steps_plan(g, p, nmax)
    t0 = g.weighted([(1, 0.0), (2, g.flt(0, 100)), (1, g.flt(-50, 0))])
    middle = p.has_double_support()
    sup = placo.FootstepsPlanner.make_supports(fs, t0, True, middle, True)
    if len(sup) > 30:
        raise Discard
    if g.boolean(0.3):  # another pace for some supports
        for k in range(len(sup)):
            if g.boolean(0.4):
                sup[k].time_ratio = g.pos(0.7, 1.5) if g.boolean(0.7) else g.pos(0.3, 4.0)
    ph = horizon(p, sup, t0)
    mid = ph[0].frame[:2, 3]
    com = mid + g.vec(2, -1, 1) * g.choice([0.0, 0.2, 0.7]) * p.feet_spacing / 2
    init = np.zeros((3, 2))
    init[0] = com
    lip = Lip(p, ph, init)
    slack = lip.slack()
    # the height given is not the one of the plan, which is the parameter
    com3 = np.array([com[0], com[1], g.choice([p.walk_com_height, 0.0, 0.77])])
    return p, pl, fs, sup, ph, t0, com3, lip, slack


TOL = 2e-4


def check_com(p, tr, lip, ph, init, zmp=True):
    """CoM clauses: initial state, consistency, ZMP in the polygons, final rest."""
    om = math.sqrt(G / p.walk_com_height)
    t0, t1 = ph[0].t0, ph[-1].t1
    com = lambda t: np.array(tr.get_p_world_CoM(t))
    close("initial-com", com(t0)[:2], init[0], atol=1e-9, msg="position")
    close("initial-velocity", tr.get_v_world_CoM(t0), [*init[1], 0], atol=1e-9)
    close("initial-acceleration", tr.get_a_world_CoM(t0), [*init[2], 0], atol=1e-8)
    A = max(1.0, np.abs(np.array(tr.get_a_world_CoM(t0))).max())
    for f in ph:
        for k in range(1, f.n + 1):
            t = f.t0 + k * f.dt
            z = np.array(tr.get_p_world_ZMP(t, om))
            q = com(t)[:2] - np.array(tr.get_a_world_CoM(t))[:2] / om**2
            close("zmp", z, q, atol=1e-9)
            if zmp:
                # the exact end of a phase is shared with the next one: look just before
                tt = t - 1e-9 * f.dt if k == f.n else t
                z = np.array(tr.get_p_world_ZMP(tt, om))
                d = hull_contains(f.corners, z)
                check("zmp-out", d >= p.zmp_margin - TOL, f"the ZMP is {d} inside the support at {t} (margin {p.zmp_margin})")
            close("com-height", com(t)[2], p.walk_com_height, atol=1e-9)
    for u in np.linspace(0.01, 0.99, 7):
        t = t0 + (t1 - t0) * u
        for o in (om, 0.3, 30.0):
            close("dcm", tr.get_p_world_DCM(t, o), com(t)[:2] + np.array(tr.get_v_world_CoM(t))[:2] / o, atol=1e-9 * (1 + 1 / o))
            close("zmp", tr.get_p_world_ZMP(t, o), com(t)[:2] - np.array(tr.get_a_world_CoM(t))[:2] / o**2, atol=1e-9 * (1 + 1 / o**2))
    # consistent derivatives: integrate the jerk inside of each planning step
    for f in ph:
        for k in sorted({0, f.n // 2, f.n - 1}):
            a, b = f.t0 + k * f.dt, f.t0 + (k + 1) * f.dt
            m = 0.5 * (a + b)
            j = np.array(tr.get_j_world_CoM(m))
            h = 0.4 * f.dt
            P, V, Ac = com(m), np.array(tr.get_v_world_CoM(m)), np.array(tr.get_a_world_CoM(m))
            s = 1e-7 * (1 + np.abs(j).max() * (f.dt + 1) + np.abs(Ac).max())
            close("jerk-derivative", tr.get_a_world_CoM(m + h), Ac + h * j, atol=s)
            close("acceleration-derivative", tr.get_v_world_CoM(m + h), V + h * Ac + h * h / 2 * j, atol=s)
            close("velocity-derivative", com(m + h), P + h * V + h * h / 2 * Ac + h**3 / 6 * j, atol=s)
    if ph[-1].end:
        T = ph[-1].frame
        close("final-com", com(t1)[:2], T[:2, 3], atol=TOL)
        close("final-velocity", tr.get_v_world_CoM(t1), np.zeros(3), atol=TOL)
        close("final-acceleration", tr.get_a_world_CoM(t1), np.zeros(3), atol=TOL)
    # continuity
    for f in ph[1:]:
        e = 1e-8
        j = max(np.abs(tr.get_j_world_CoM(f.t0 - 1e-6)).max(), np.abs(tr.get_j_world_CoM(f.t0 + 1e-6)).max())
        a = np.abs(tr.get_a_world_CoM(f.t0)).max()
        for name, fn in (("position", tr.get_p_world_CoM), ("velocity", tr.get_v_world_CoM), ("acceleration", tr.get_a_world_CoM)):
            close("com-continuous", np.array(fn(f.t0 - e)), np.array(fn(f.t0 + e)), atol=1e-6 + 1e-6 * (j + a), msg=f"{name} at {f.t0}")


def check_parts(p, tr, ph):
    parts = tr.parts
    check("parts-count", len(parts) == len(ph), f"{len(parts)} parts, {len(ph)} supports")
    for k, (q, f) in enumerate(zip(parts, ph)):
        close("part-start", q.t_start, f.t0, atol=1e-9, msg=f"part {k}")
        close("part-end", q.t_end, f.t1, atol=1e-9, msg=f"part {k}")
        om = math.sqrt(G / p.walk_com_height)
        close("target-dcm", q.support.target_world_dcm, tr.get_p_world_DCM(f.t1 if k == len(ph) - 1 else f.t1 - 1e-9 * f.duration, om), atol=1e-6, msg=f"part {k}")
    close("com-target-z", tr.com_target_z, p.walk_com_height, atol=1e-12)
    close("trunk-pitch", tr.trunk_pitch, p.walk_trunk_pitch, atol=1e-12)
    close("trunk-roll", tr.trunk_roll, 0.0, atol=1e-12)
    close("trajectory-start", tr.t_start, ph[0].t0, atol=1e-12)
    close("trajectory-end", tr.t_end, ph[-1].t1, atol=1e-9)


def foot(tr, side, t):
    return np.array(tr.get_T_world_left(t) if side == LEFT else tr.get_T_world_right(t))


def check_feet(p, tr, ph, first=None):
    """Feet clauses. `first`: for a re-planned first swing, its (position, velocity, yaw, yaw velocity)."""
    for i, f in enumerate(ph):
        for side in (LEFT, RIGHT):
            if side in f.feet:
                for u in (0.0, 0.3, 0.5, 1.0) if i in (0, len(ph) - 1) else (0.05, 0.5, 0.95):
                    close("support-moves", foot(tr, side, f.t0 + u * f.duration), f.feet[side], atol=1e-6, msg=f"{side} foot in phase {i}")
                    if not f.both:
                        close("support-velocity", tr.get_v_world_foot(side, f.t0 + (0.02 + 0.96 * u) * f.duration), np.zeros(3), atol=1e-9)
                continue
            # swinging foot
            land = ph[i + 1].feet[side]
            virt = f.default * f.ratio
            t_v = f.t0 - f.elapsed * virt
            if i == 0:
                A, v, yaw0, dyaw = first
            else:
                A, v, yaw0, dyaw = ph[i - 1].feet[side][:3, 3], np.zeros(3), yaw_of(ph[i - 1].feet[side]), 0.0
            rise = p.walk_foot_rise_ratio
            knots = [t_v + virt / 2 * (1 - rise), t_v + virt / 2 * (1 + rise)] if rise > 0 else [t_v + virt / 2]
            pz = [(f.t0, A[2], v[2])] + [(k, p.walk_foot_height, 0.0) for k in knots if k > f.t0] + [(f.t1, land[2, 3], 0.0)]
            if any(pz[k + 1][0] - pz[k][0] < 1e-4 * virt for k in range(len(pz) - 1)):
                continue
            for u in (0.001, 0.1, 0.25, 0.4, 0.5, 0.62, 0.8, 0.95, 0.999):
                t = f.t0 + u * f.duration
                T = foot(tr, side, t)
                for k in range(len(pz) - 1):
                    if t <= pz[k + 1][0] or k == len(pz) - 2:
                        z = hermite(pz[k], pz[k + 1], t)
                        break
                x = hermite((f.t0, A[0], v[0]), (f.t1, land[0, 3], 0), t)
                y = hermite((f.t0, A[1], v[1]), (f.t1, land[1, 3], 0), t)
                yw = hermite((f.t0, yaw0, dyaw), (f.t1, yaw0 + wrap(yaw_of(land) - yaw0), 0), t)
                s = 1e-6 * (1 + np.abs(v).max())
                close("swing", T, flat(x, y, yw, z), atol=s, msg=f"{side} foot at {u} of phase {i}")
                if not v.any():
                    check("swing-height", min(0.0, A[2], land[2, 3]) - 1e-6 <= T[2, 3] <= p.walk_foot_height + 1e-6, f"{T[2, 3]} over {p.walk_foot_height}")
                e = 1e-4 * f.duration
                if not any(abs(t - k) < 2 * e for k in knots) and u * f.duration > 2 * e and (1 - u) * f.duration > 2 * e:
                    fd = (foot(tr, side, t + e) - foot(tr, side, t - e))[:3, 3] / (2 * e)
                    gap = min(pz[k + 1][0] - pz[k][0] for k in range(len(pz) - 1))
                    sc = (p.walk_foot_height + np.abs(A - land[:3, 3]).max() + np.abs(v).max()) / gap * (e / gap) ** 2 * 200 + 1e-6
                    close("swing-velocity", tr.get_v_world_foot(side, t), fd, atol=sc, msg=f"at {u} of phase {i}")
                    if side == RIGHT:
                        close("right-velocity", tr.get_v_world_right(t), np.array(tr.get_v_world_foot(side, t)), atol=1e-12)
            # leaves from and lands on the footsteps
            close("leaves", foot(tr, side, f.t0)[:3, 3], A, atol=1e-6, msg=f"phase {i}")
            close("lands", foot(tr, side, f.t1), land, atol=1e-6, msg=f"phase {i}")


def check_trunk(p, tr, ph, start=None):
    """Trunk orientation: pitched as configured, yaw following the supports."""
    double = p.has_double_support()
    pts = [(ph[0].t0, yaw_of(ph[0].frame) if start is None else start[0], 0.0 if start is None else start[1])]
    for i, f in enumerate(ph):
        if f.both:
            pts.append((f.t1, yaw_of(f.frame), 0.0))
        elif not double:
            side = RIGHT if LEFT in f.feet else LEFT
            pts.append((f.t1, yaw_of(ph[i + 1].feet[side]), 0.0))
    un = [pts[0]]
    for q in pts[1:]:
        un.append((q[0], un[-1][1] + wrap(q[1] - un[-1][1]), q[2]))
    c, s = math.cos(p.walk_trunk_pitch), math.sin(p.walk_trunk_pitch)
    Ry = np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])
    for k in range(len(un) - 1):
        for u in (0.0, 0.37, 0.8, 1.0):
            t = un[k][0] + u * (un[k + 1][0] - un[k][0])
            R = flat(0, 0, hermite(un[k], un[k + 1], t))[:3, :3] @ Ry
            close("trunk", tr.get_R_world_trunk(t), R, atol=1e-6 * (1 + abs(un[k][2])), msg=f"t={t}")


def f_plan(g):
    p, pl, fs, sup, ph, t0, com, lip, slack = make(g)
    g.note(supports=len(sup), timesteps=lip.n, slack=slack, double=p.has_double_support(), com_height=p.walk_com_height)
    if slack is None:
        raise Discard
    w = placo.WalkPatternGenerator(humanoid(), p)
    for s in sup:
        close("default-duration", w.support_default_duration(s), default_duration(p, s), rtol=1e-12)
        check("default-timesteps", w.support_default_timesteps(s) == default_timesteps(p, s), "")
    if slack < 1e-3:
        if slack < -1e-3:
            raises("impossible-planned", lambda: w.plan(sup, com, t0))
            g.cls("impossible")
            return
        raise Discard
    try:
        tr = w.plan(sup, com, t0)
    except RuntimeError as e:
        raise Violation("not-planned", f"a plan exists with {slack} of room, but: {e}")
    singles = sum(not f.both for f in ph)
    g.nt(singles >= 2)
    g.cls("double" if p.has_double_support() else "direct", f"singles{min(singles, 4)}")
    init = np.zeros((3, 2))
    init[0] = com[:2]
    check("replan-flag", tr.replan_success, "")
    check_parts(p, tr, ph)
    check_com(p, tr, lip, ph, init)
    check_feet(p, tr, ph)
    check_trunk(p, tr, ph)


def jerks(tr, ph, n):
    J = np.zeros((n, 2))
    k = 0
    for f in ph:
        for i in range(f.n):
            J[k] = np.array(tr.get_j_world_CoM(f.t0 + (i + 0.5) * f.dt))[:2]
            k += 1
    return J


def f_optimal(g):
    """Among the balanced plans, the one whose ZMP is closest to its reference is chosen (or, in soft mode, the best
    compromise between the reference, the balance and the final stop)."""
    p, pl, fs, sup, ph, t0, com, lip, slack = make(g, 4)
    soft = g.boolean(0.35)
    if not soft and (slack is None or slack < 1e-3):
        raise Discard
    w = placo.WalkPatternGenerator(humanoid(), p)
    if soft:
        w.soft = True
        w.zmp_in_support_weight = g.pos(10.0, 1e4)
        w.stop_end_support_weight = g.pos(10.0, 1e4) if g.boolean() else g.pos(0.01, 10.0)
    tr = w.plan(sup, com, t0)
    n = lip.n
    J = jerks(tr, ph, n)
    Zv = lip.Z[1:] @ J + lip.cz[1:]
    ref = np.array([ph[i].target for i in lip.where])
    close("model-zmp", np.array(tr.get_p_world_ZMP(ph[-1].t1, math.sqrt(G / p.walk_com_height))), Zv[-1], atol=1e-5)
    wgt = p.zmp_reference_weight

    def ref_gradient(J):
        Z = lip.Z[1:] @ J + lip.cz[1:]
        return np.concatenate([(2 * wgt * lip.Z[1:].T @ (Z - ref))[:, ax] + 2e-8 * J[:, ax] for ax in (0, 1)])
    grad = ref_gradient(J)
    cols, offs = [], []
    worst = np.inf
    for k in range(n):
        N, o = ph[lip.where[k]].halfplanes()
        if soft:  # aligned edges count twice when they are split in the polygon (which P43 checks)
            pg = np.array([np.array(q) for q in sup[lip.where[k]].support_polygon()])
            e = np.roll(pg, -1, axis=0) - pg
            if np.linalg.norm(e, axis=1).min() < 1e-6:
                raise Discard
            N = np.stack([e[:, 1], -e[:, 0]], 1) / np.linalg.norm(e, axis=1)[:, None]
            o = np.sum(N * pg, axis=1)
        for nn, oo in zip(N, o):
            d = nn @ Zv[k] - oo - p.zmp_margin
            worst = min(worst, d)
            if soft or d < 1e-5:
                cols.append(np.concatenate([nn[0] * lip.Z[k + 1], nn[1] * lip.Z[k + 1]]))
                offs.append(nn @ lip.cz[k + 1] - oo - p.zmp_margin)
    tgt = ph[-1].frame[:2, 3]
    E, e = [], []
    for M, ci, want in ((lip.P, 0, tgt), (lip.V, 1, np.zeros(2)), (lip.A, 2, np.zeros(2))):
        for ax in (0, 1):
            r = np.zeros(2 * n)
            r[ax * n:(ax + 1) * n] = M[n]
            E.append(r)
            e.append(lip.c[n, ci, ax] - want[ax])
    g.note(timesteps=n, active=len(cols), slack=slack, soft=soft, worst=worst)
    g.cls("soft" if soft else "hard", "active" if worst < 1e-5 else "free")
    Sz = np.linalg.norm(lip.Z[1:], 2)
    if soft:
        prob, lp = placo.Problem(), None
        for su, f in zip(sup, ph):
            lp = placo.LIPM(prob, f.dt, f.n, f.t0, com[:2], np.zeros(2), np.zeros(2)) if lp is None else \
                placo.LIPM.build_LIPM_from_previous(prob, f.dt, f.n, f.t0, lp)
            for k in range(1, f.n + 1):
                z = lp.zmp(k, G / p.walk_com_height)
                prob.add_constraint(placo.PolygonConstraint.in_polygon_xy(z, su.support_polygon(), p.zmp_margin)).configure("soft", w.zmp_in_support_weight)
                prob.add_constraint(z == f.target).configure("soft", wgt)
        for ex, v in ((lp.pos(f.n), f.frame[:2, 3]), (lp.vel(f.n), np.zeros(2)), (lp.acc(f.n), np.zeros(2))):
            prob.add_constraint(ex == v).configure("soft", w.stop_end_support_weight)
        prob.solve()
        if np.array(prob.slacks).min() < -1e-7:  # the QP library lost its own constraints (ill-conditioned)
            g.cls("library")
            raise Discard
        g.nt(worst < -1e-6)
        O = np.zeros((n, n))
        R = np.sqrt(wgt) * np.block([[lip.Z[1:], O], [O, lip.Z[1:]]])
        r0 = np.sqrt(wgt) * np.concatenate([(lip.cz[1:] - ref)[:, 0], (lip.cz[1:] - ref)[:, 1]])
        ws, wz = np.sqrt(w.stop_end_support_weight), np.sqrt(w.zmp_in_support_weight)
        H, h0 = wz * np.array(cols), wz * np.array(offs)
        R = np.vstack([R, ws * np.array(E), 1e-4 * np.eye(2 * n)])
        r0 = np.concatenate([r0, ws * np.array(e), np.zeros(2 * n)])

        def cost(x):
            return np.sum((R @ x + r0) ** 2) + np.sum(np.minimum(H @ x + h0, 0) ** 2)
        x = np.concatenate([J[:, 0], J[:, 1]])
        f0 = best = cost(x)
        for _ in range(30):  # descent by Newton steps on the violated rows
            act = H @ x + h0 < 0
            y = np.linalg.lstsq(np.vstack([R, H[act]]), -np.concatenate([r0, h0[act]]), rcond=None)[0]
            step = 1.0
            while step > 1e-3 and cost(x + step * (y - x)) > best - 1e-14:
                step /= 2
            if step <= 1e-3:
                break
            x = x + step * (y - x)
            best = cost(x)
        tiny = wgt * 1e-8 * n
        # the final state is the one of the same problem, written here
        K = np.array(prob.x)
        xs, ys, lp = [], [], 0
        for f in ph:
            xs.append(K[lp:lp + f.n])
            ys.append(K[lp + f.n:lp + 2 * f.n])
            lp += 2 * f.n
        K = np.stack([np.concatenate(xs), np.concatenate(ys)], 1)
        for M, ci, name in ((lip.P, 0, "position"), (lip.V, 1, "velocity"), (lip.A, 2, "acceleration")):
            a, b = M[n] @ J + lip.c[n, ci], M[n] @ K + lip.c[n, ci]
            close("soft-stop", a, b, atol=1e-5 + 0.02 * np.abs(b).max(), msg=f"final {name}")
        check("not-optimal-soft", f0 <= best * 1.05 + 10 * tiny, f"the plan costs {f0}, another one {best} (margin to the border {worst})")
        return
    g.nt(len(cols) > 0)
    # first order optimality: the gradient is a combination of the active constraints
    from scipy.optimize import nnls
    M = np.array(cols + E + [-r for r in E]).T
    sc = np.linalg.norm(M, axis=0)
    M = M / np.where(sc > 0, sc, 1)
    # scale: gradient of the reference term alone, over which the stationarity is judged
    scale = 2 * wgt * Sz * max(np.linalg.norm(Zv - ref), 1e-3)
    x, r = nnls(M, grad, maxiter=100 * M.shape[1])
    check("not-optimal", r <= 2e-3 * scale, f"stationarity residual {r} for a scale of {scale}, {len(cols)} active constraints")


FACETS = [
    Facet("plan", f_plan, 500, 6000, "two single supports or more"),
    Facet("optimal", f_optimal, 250, 3000, "some balance constraint is active (hard) or violated (soft)"),
]
