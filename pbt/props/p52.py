"""P52: objects and arrays obtained from the library stay valid for as long as they are held."""
import ctypes
import gc
import numpy as np
import placo
import robots as rb
import walk as wk
from engine import Facet, Violation, Discard, close, check

RULE = "A case builds the same objects twice: once holding everything, once keeping a single object and dropping all that it was made from, after which the memory is reused by others of the same kinds; what the kept object then gives is compared; or it holds arrays read from live objects, which are used further: each still holds what was read, or what its object now holds. Non-trivial when the object was made from others, or was used further."


def churn(g, spec):
    """Objects of the same kinds and sizes, with other contents: they take the memory that was freed."""
    out = []
    for i in range(3):
        if spec is not None:
            r = rb.make(spec)
            rb.set_q(r, rb.gen_q(g, r))
            s = placo.KinematicsSolver(r)
            s.add_com_task(g.vec(3, -9, 9))
            s.add_regularization_task(1e-3)
            s.solve(False)
            out += [r, s]
        p = placo.HumanoidParameters()
        p.walk_com_height, p.feet_spacing, p.foot_width, p.single_support_duration, p.single_support_timesteps = 77.0, 33.0, 55.0, 11.0, 3
        p.walk_max_dx_forward = p.walk_max_dy = p.walk_max_dtheta = 44.0
        out.append(p)
        q = placo.Problem()
        for n in (1, 2, 3, 5, 8):
            v = q.add_variable(n)
            q.add_constraint(v.expr() == np.full(n, 66.0))
        q.solve()
        out += [q, [np.full(k, 1e9) for k in (3, 7, 13, 36, 49)]]
    return out


def flat(x):
    """All the numbers of a result."""
    if isinstance(x, dict):
        return np.concatenate([flat(x[k]) for k in sorted(x)] or [np.zeros(0)])
    if isinstance(x, (list, tuple)):
        return np.concatenate([flat(v) for v in x] or [np.zeros(0)])
    return np.atleast_1d(np.array(x, dtype=float)).reshape(-1)


def twins(g, tag, make, use, spec=None, tol=1e-7):
    """make() gives (what the object is made from, the object)."""
    held, a = make()
    want = flat(use(a))
    b = make()[1]
    gc.collect()
    junk = churn(g, spec)
    got = flat(use(b))
    check(f"{tag}-size", got.shape == want.shape, lambda: f"{got.shape}, {want.shape}")
    if not np.all(np.isfinite(want)):
        raise Discard
    close(tag, got, want, atol=tol * (1 + np.abs(want).max(initial=0)), rtol=1e-7)
    # and once more, the other objects being gone in turn
    junk = None
    gc.collect()
    flat(use(b))
    g.cls(tag)
    g.note(object=tag)
    g.nt()
    return held


def f_solvers(g):
    spec = rb.gen_robot(g, min_joints=1, max_joints=5)
    r0 = rb.make(spec)
    q = rb.gen_q(g, r0)
    qd = g.gauss_vec(r0.model.nv)
    names, frames = list(r0.joint_names()), rb.body_frames(r0)
    f = g.choice(frames)
    T, target, val, dt = g.frame(), g.vec(3, -1, 1), g.flt(-1, 1), 0.01
    made, own = g.boolean(), g.boolean(0.4)
    dyn = g.boolean()
    if dyn:
        kind = g.choice(["solver", "solver.robot", "task", "contact", "position-part", "result"])
    else:
        kind = g.choice(["solver", "solver.robot", "task", "constraint", "position-part", "solver.problem"])

    def robot():
        r = rb.make(spec)
        rb.set_q(r, q, qd)
        r.update_kinematics()
        return r

    def make():
        r = robot()
        if dyn:
            s = placo.DynamicsSolver(r)
            s.mask_fbase(True)
        else:
            s = r.make_solver() if made else placo.KinematicsSolver(r)
        s.dt = dt
        s.problem.regularization = 1e-3
        t = s.add_frame_task(f, T)
        t.configure("frame", "soft", 1.0, 1.0)
        if own:  # made by the caller, and given to the solver
            com = (placo.DynamicsCoMTask if dyn else placo.CoMTask)(target)
            s.add_task(com)
        else:
            com = s.add_com_task(target)
        com.configure("com", "soft", 0.1)
        j = s.add_joints_task()
        j.set_joints({names[0]: val})
        j.configure("joints", "soft", 1.0)
        if dyn:
            k = s.add_external_wrench_contact(f, "world")
            k.w_ext = np.array([1.0, 2, 3, 4, 5, 6])
            if kind in ("contact", "task", "position-part"):
                s.solve(False)
        else:
            k = s.add_yaw_constraint(frames[0], frames[-1], 3.0)
            k.configure("k", "soft", 1.0)
        o = {"solver": s, "solver.robot": s.robot, "task": com, "contact": k, "constraint": k, "position-part": t.position(), "solver.problem": s.problem}
        if kind == "result":
            o["result"] = s.solve(False)
        if kind == "solver.problem":
            s.solve(False)
        return (r, s, t, com, j, k), o[kind]

    def use(o):
        if kind == "solver":
            out = []
            for _ in range(2):
                if dyn:
                    res = o.solve(True)
                    o.robot.update_kinematics()
                    out += [res.qdd, res.tau]
                else:
                    out.append(o.solve(True))
                    o.robot.update_kinematics()
                out.append(o.robot.state.q)
            return out
        if kind == "solver.robot":
            return [o.get_T_world_frame(f), o.com_world(), o.state.q, o.state.qd, o.mass_matrix()]
        if kind in ("task", "position-part"):
            if dyn:
                return [o.A, o.b, o.error, o.kp]
            o.update()
            return [o.A, o.b, o.error()]
        if kind == "contact":
            return [o.w_ext, o.wrench, float(o.active)]
        if kind == "constraint":
            return [o.angle_max]
        if kind == "solver.problem":
            return [o.x, o.n_variables, o.regularization]
        return [o.qdd, o.tau, o.tau_contacts]

    g.note(dynamics=dyn, f=f, own=own)
    if own:
        g.cls("own task")
        if kind == "task":
            raise Discard  # a task is used with its solver
    # (tasks are kept in an order that depends on their addresses: the rounding differs)
    twins(g, ("dynamics " if dyn else "kinematics ") + kind, make, use, spec, tol=1e-4 if kind == "solver" else 1e-6)


def numbers(o, depth=2):
    """All the numbers that an object shows: its attributes, those of its mask and of its parts."""
    out = []
    for n in sorted(dir(o)):
        if n.startswith("_"):
            continue
        v = getattr(o, n)
        if callable(v):
            if depth and n in ("position", "orientation", "position_task", "orientation_task"):
                out.append(numbers(v(), depth - 1))
        elif isinstance(v, str):
            out.append([float(ord(c)) for c in v])
        elif isinstance(v, (bool, int, float, np.ndarray)):
            out.append(v)
        elif n == "mask" and depth:
            out.append(numbers(v, depth - 1))
        elif n == "priority":
            out.append([float(ord(c)) for c in str(v)])
    return flat(out)


def f_handles(g):
    """Each kind of task, constraint and contact: the handle is all that is kept."""
    spec = rb.gen_robot(g, min_joints=2, max_joints=5)
    r0 = rb.make(spec)
    q, qd = rb.gen_q(g, r0), g.gauss_vec(r0.model.nv)
    names, frames = list(r0.joint_names()), rb.body_frames(r0)
    fa = g.choice(frames)
    fb = g.choice([x for x in frames if x != fa] or [None])
    if fb is None or len(names) < 2:
        raise Discard
    dyn = g.boolean()
    tasks = ["position", "relative_position", "com", "orientation", "relative_orientation", "frame", "relative_frame", "joints", "gear"]
    if dyn:
        kind = g.choice(tasks + ["torque", "point", "unilateral_point", "planar", "fixed", "line", "unilateral_line", "external", "puppet", "task_contact", "collisions"])
    else:
        kind = g.choice(tasks + ["axisalign", "wheel", "distance", "momentum", "regularization", "manipulability", "kinetic", "collisions", "polygon", "halfspaces", "cone", "yaw", "distance_max"])
    base = [g.vec(3, -1, 1), g.rotation(), g.frame(), g.flt(0.1, 1), g.pos(0.1, 2), g.choice(["hard", "soft"])]
    other = [g.vec(3, -1, 1), g.rotation(), g.frame(), g.flt(0.1, 1), g.pos(0.1, 2), g.choice(["hard", "soft"])]

    def make(w=base, label="kept"):
        v, R, T, x, k, prio = w
        r = rb.make(spec)
        rb.set_q(r, q, qd)
        r.update_kinematics()
        s = placo.DynamicsSolver(r) if dyn else placo.KinematicsSolver(r)
        if dyn:
            s.mask_fbase(True)
        s.dt = 0.01
        s.problem.regularization = 1e-3
        held = [r, s]
        o = None
        if kind == "position":
            o = s.add_position_task(fa, v)
        elif kind == "relative_position":
            o = s.add_relative_position_task(fa, fb, v)
        elif kind == "com":
            o = s.add_com_task(v)
        elif kind == "orientation":
            o = s.add_orientation_task(fa, R)
        elif kind == "relative_orientation":
            o = s.add_relative_orientation_task(fa, fb, R)
        elif kind == "frame":
            o = s.add_frame_task(fa, T)
        elif kind == "relative_frame":
            o = s.add_relative_frame_task(fa, fb, T)
        elif kind == "joints":
            o = s.add_joints_task()
            o.set_joints({names[0]: x})
        elif kind == "gear":
            o = s.add_gear_task()
            o.set_gear(names[0], names[1], k)
        elif kind == "torque":
            o = s.add_torque_task()
            o.set_torque(names[0], x)
        elif kind == "axisalign":
            o = s.add_axisalign_task(fa, R[0], R[1])
        elif kind == "wheel":
            o = s.add_wheel_task(names[0], k, True)
        elif kind == "distance":
            o = s.add_distance_task(fa, fb, k)
        elif kind == "momentum":
            o = s.add_centroidal_momentum_task(v)
        elif kind == "regularization":
            o = s.add_regularization_task(k)
        elif kind == "manipulability":
            o = s.add_manipulability_task(fa, "both", k)
        elif kind == "kinetic":
            o = s.add_kinetic_energy_regularization_task(k)
        elif kind == "collisions":
            o = s.add_avoid_self_collisions_constraint()
            o.self_collisions_margin = 0.01 * k
        elif kind == "polygon":
            o = s.add_com_polygon_constraint([np.array(p) * k for p in ((1, 1), (1, -1), (-1, -1), (-1, 1))], 0.01 * x)
        elif kind == "halfspaces":
            o = s.add_joint_space_half_spaces_constraint(np.full((2, r.model.nv + 1), k), np.array([9.0, 9.0 + x]))
        elif kind == "cone":
            o = s.add_cone_constraint(fa, fb, x)
        elif kind == "yaw":
            o = s.add_yaw_constraint(fa, fb, x)
        elif kind == "distance_max":
            o = s.add_distance_constraint(fa, fb, 9 + k)
        elif kind == "external":
            o = s.add_external_wrench_contact(fa, "world")
            o.w_ext = np.array([*v, *v])
        elif kind == "puppet":
            o = s.add_puppet_contact()
        elif kind in ("point", "unilateral_point", "task_contact"):
            t = s.add_position_task(fa, v)
            t.configure("t", "soft", 1.0)
            held.append(t)
            o = getattr(s, "add_" + (kind if kind == "task_contact" else kind + "_contact"))(t)
        else:
            t = s.add_frame_task(fa, T)
            t.configure("t", "soft", 1.0)
            if "line" in kind:
                t.orientation().mask.set_axises("yz", "local")
            held.append(t)
            o = getattr(s, f"add_{kind}_contact")(t)
            if kind != "fixed" and kind != "line":
                o.length = 0.1 * k
            if kind == "planar":
                o.width = 0.2 * k
        if hasattr(o, "mu"):
            o.mu, o.weight_forces = k, 0.1 * k
        elif kind not in ("regularization", "kinetic"):
            if kind in ("frame", "relative_frame"):
                o.configure(label, prio, k, 1.0)
            else:
                o.configure(label, prio, k)
        try:
            s.solve(False)
        except RuntimeError:
            pass
        held.append(o)
        return held, o

    held, a = make()
    want = numbers(a)
    if not np.all(np.isfinite(want)):
        raise Discard
    b = make()[1]
    gc.collect()
    junk = [make(other, "another") for _ in range(3)]
    got = numbers(b)
    tag = ("dynamics " if dyn else "kinematics ") + kind
    check(f"{tag}-size", got.shape == want.shape, lambda: f"{got.shape}, {want.shape}")
    close(tag, got, want, atol=1e-4 * (1 + np.abs(want).max(initial=0)))
    del junk
    gc.collect()
    close(tag, numbers(b), want, atol=1e-4 * (1 + np.abs(want).max(initial=0)))
    g.cls(tag)
    g.note(handle=tag)
    g.nt(want.size > 0)


def f_arrays(g):
    """Arrays held while the objects they were read from are used further."""
    where = g.choice(["kinematics", "dynamics", "problem", "robot"])
    held = []  # (name, array, its content when read, how to read it again)
    log = []
    if where == "problem":
        p = placo.Problem()
        vs = [p.add_variable(g.integer(1, 6)) for _ in range(g.integer(1, 3))]
        reads = {"x": lambda: p.x, "slacks": lambda: p.slacks}
        for i, v in enumerate(vs):
            reads[f"value{i}"] = lambda v=v: v.value

        def again():
            p.clear_constraints()
            for v in vs:
                p.add_constraint(v.expr() == g.vec(v.k_end - v.k_start, -5, 5)).configure("soft", 1.0)
                if g.boolean(0.3):
                    p.add_constraint(v.expr() <= 0.0).configure("soft", 1.0)
            p.solve()
        ops = {"solve": again}
        again()
    else:
        spec = rb.gen_robot(g, min_joints=1, max_joints=5)
        r = rb.make(spec)
        rb.set_q(r, rb.gen_q(g, r), g.gauss_vec(r.model.nv))
        f = g.choice(rb.body_frames(r))
        reads = {"q": lambda: r.state.q, "qd": lambda: r.state.qd, "qdd": lambda: r.state.qdd}
        ops = {"move": lambda: (rb.set_q(r, rb.gen_q(g, r), g.gauss_vec(r.model.nv)), r.update_kinematics()),
               "integrate": lambda: (r.integrate(0.01), r.update_kinematics()), "reset": lambda: (r.reset(), r.update_kinematics())}
        if where != "robot":
            if where == "kinematics":
                s = placo.KinematicsSolver(r)
            else:
                s = placo.DynamicsSolver(r)
                s.mask_fbase(True)
            s.dt = 0.01
            s.problem.regularization = 1e-3
            ts = {"com": s.add_com_task(g.vec(3, -1, 1)), "position": s.add_position_task(f, g.vec(3, -1, 1)), "orientation": s.add_orientation_task(f, g.rotation())}
            for n, t in ts.items():
                t.configure(n, "soft", 1.0)
                reads[f"{n}.A"], reads[f"{n}.b"] = lambda t=t: t.A, lambda t=t: t.b
                if where == "dynamics":
                    reads[f"{n}.error"], reads[f"{n}.derror"] = lambda t=t: t.error, lambda t=t: t.derror
                else:
                    reads[f"{n}.error"] = lambda t=t: t.error()
            if where == "dynamics":
                k = s.add_point_contact(ts["position"])
                k.weight_forces = 1e-2
                reads["wrench"] = lambda: k.wrench
            reads["problem.x"] = lambda: s.problem.x
            ops["solve"] = lambda: s.solve(False)
            ops["step"] = lambda: (s.solve(True), r.update_kinematics())
            s.solve(False)
        r.update_kinematics()
    for _ in range(g.integer(1, 5)):
        for n in g.subset(sorted(reads), 0.5):
            a = reads[n]()
            held.append((n, a, np.array(a).copy(), reads[n]))
        op = g.choice(sorted(ops))
        try:
            ops[op]()
        except RuntimeError:
            op = "failed"
        log.append(op)
        junk = [np.full(a.shape, 12345.0) for _, a, _, _ in held for _ in range(2)]
        for n, a, was, read in held:
            now = np.array(read())
            same = lambda x: x.shape == a.shape and np.array_equal(np.array(a), x, equal_nan=True)
            check(f"{n}", same(was) or same(now), lambda: f"the array read holds {np.array(a).reshape(-1)[:6]}; it was {was.reshape(-1)[:6]}, and is now {now.reshape(-1)[:6]}, after {log}")
        del junk
    g.note(where=where, history=log)
    g.cls(where, *log)
    g.nt(bool(held))


def f_robot(g):
    spec = rb.gen_robot(g, min_joints=1, max_joints=5, geoms=True)
    r0 = rb.make(spec, 0)
    q = rb.gen_q(g, r0)
    qd = g.gauss_vec(r0.model.nv)
    kind = g.choice(["state", "model", "collision_model", "visual_model", "distances", "jacobian"])
    f = g.choice(rb.body_frames(r0))

    def make():
        r = rb.make(spec, 0)
        rb.set_q(r, q, qd)
        r.update_kinematics()
        return r, {"state": lambda: r.state, "model": lambda: r.model, "collision_model": lambda: r.collision_model, "visual_model": lambda: r.visual_model,
                   "distances": lambda: list(r.distances()), "jacobian": lambda: r.frame_jacobian(f, "world")}[kind]()

    def use(o):
        if kind == "state":
            return [o.q, o.qd, o.qdd]
        if kind == "model":
            return [o.nq, o.nv, o.lowerPositionLimit, o.upperPositionLimit, [b.mass for b in o.inertias], rb.frame_T(o, q, f)]
        if kind in ("collision_model", "visual_model"):
            return [o.ngeoms] + [np.array(x.placement.homogeneous) for x in o.geometryObjects]
        if kind == "distances":
            return [[d.min_distance, d.pointA, d.pointB, d.parentA, d.parentB] for d in o]
        return o

    twins(g, kind, make, use, spec)


def f_problem(g):
    n, m = g.integer(1, 6), g.integer(2, 6)
    x, dt = g.vec(n, -5, 5), g.flt(0.05, 0.5)
    M = np.array([[0.0, 1.0, 0.0], g.vec(3, -1, 1), [0.0, 0.0, 0.0]])
    X0 = g.vec(3, -1, 1)
    goal = g.vec(2, -1, 1)
    kind = g.choice(["variable", "constraint", "expression", "integrator", "integrator-matrix", "integrator-trajectory", "polynom", "polynom-value", "lipm", "lipm-previous", "lipm-trajectory", "lipm-variable", "lipm-integrator"])
    coeff = g.gauss_vec(4)

    def make():
        p = placo.Problem()
        p.regularization = 1e-3
        other = p.add_variable(2)
        p.add_constraint(other.expr() == np.array([1.0, 2.0]))
        v = p.add_variable({"polynom": 4, "polynom-value": 4}.get(kind, m if "integrator" in kind and "lipm" not in kind else n))
        size = v.k_end - v.k_start
        held = [p, v, other]
        if kind in ("variable", "constraint", "expression"):
            c = p.add_constraint(v.expr() == x)
            c.configure("soft", 2.5)
            p.solve()
            return held, {"variable": v, "constraint": c, "expression": v.expr() * 2.0 + x}[kind]
        if kind.startswith("polynom"):
            o = placo.ProblemPolynom(v)
            p.add_constraint(v.expr() == coeff)
            p.solve()
            return held + [o], (o if kind == "polynom" else o.get_polynom())
        if kind.startswith("integrator"):
            o = placo.Integrator(v, X0[:2], M, dt) if kind == "integrator-matrix" else placo.Integrator(v, placo.Expression.from_vector(X0), 3, dt)
            c = p.add_constraint(o.expr(m, 0) == np.array([goal[0]]))
            c.configure("soft", 1.0)
            p.solve()
            return held + [o, c], (o.get_trajectory() if kind == "integrator-trajectory" else o)
        l1 = placo.LIPM(p, dt, m, 3.0, X0[:2], X0[1:], goal)
        p.add_constraint(l1.pos(m) == goal).configure("soft", 1.0)
        o = l1
        if kind == "lipm-previous":
            o = placo.LIPM.build_LIPM_from_previous(p, dt, m, l1.t_end, l1)
            p.add_constraint(o.pos(m) == -goal).configure("soft", 1.0)
        p.solve()
        return held + [l1, o], {"lipm": o, "lipm-previous": o, "lipm-trajectory": o, "lipm-variable": o, "lipm-integrator": o}[kind] if kind in ("lipm", "lipm-previous") else {
            "lipm-trajectory": lambda: o.get_trajectory(), "lipm-variable": lambda: o.x_var, "lipm-integrator": lambda: o.x}[kind]()

    ts = [g.flt(0, m * dt) for _ in range(3)]

    def use(o):
        if kind in ("variable", "lipm-variable"):
            return [o.value, o.expr().A, o.k_start, o.k_end]
        if kind == "constraint":
            return [o.weight, o.expression.A, o.expression.b]
        if kind == "expression":
            return [o.A, o.b]
        if kind == "polynom":
            return [o.expr(0.3).A, o.get_polynom().coefficients]
        if kind == "polynom-value":
            return [o.value(0.3, 0), o.coefficients]
        if kind in ("integrator", "integrator-matrix", "lipm-integrator"):
            return [[o.value(t + o.t_start, 0), o.value(t + o.t_start, 1)] for t in ts] + [o.expr(1, 0).A, o.expr(1, 0).b]
        if kind == "integrator-trajectory":
            return [[o.value(t, 0), o.value(t, 1)] for t in ts]
        if kind in ("lipm", "lipm-previous"):
            t0 = o.t_start
            tr = o.get_trajectory()
            return [o.pos(1).A, o.pos(1).b, o.t_end] + [[tr.pos(t0 + t), tr.vel(t0 + t), tr.acc(t0 + t)] for t in ts] + [o.x_var.value, o.y_var.value]
        return [[o.pos(3.0 + t), o.vel(3.0 + t), o.acc(3.0 + t)] for t in ts]

    twins(g, kind, make, use)


def f_walk(g):
    seed = g.integer(0, 10 ** 6)
    kind = g.choice(["naive", "repetitive", "footstep", "support", "generator", "trajectory", "trajectory-part", "dummy", "dummy-robot", "dummy-solver", "walk-tasks", "walk-solver", "walk-foot", "walk-com", "walk-trunk"])
    base = wk.walk_parameters(g)
    keep = {n: getattr(base, n) for n in dir(base) if not n.startswith("_") and not callable(getattr(base, n))}
    spacing = base.feet_spacing
    x, y, th, n = g.flt(-0.03, 0.03), g.flt(-0.02, 0.02), g.flt(-0.1, 0.1), g.integer(1, 4)
    side = g.choice([placo.HumanoidRobot_Side.left, placo.HumanoidRobot_Side.right])
    L, R = wk.flat(0, spacing / 2, 0), wk.flat(0, -spacing / 2, 0)
    tg = g.frame()
    tg2 = g.frame()
    com = g.vec(3, -0.3, 0.3)

    def parameters():
        p = placo.HumanoidParameters()
        for k, v in keep.items():
            try:
                setattr(p, k, v)
            except AttributeError:
                pass
        return p

    def planner(p):
        if kind == "naive":
            o = placo.FootstepsPlannerNaive(p)
            o.configure(wk.flat(0.3, 0.1, 0.2) @ L, wk.flat(0.3, 0.1, 0.2) @ R)
        else:
            o = placo.FootstepsPlannerRepetitive(p)
            o.configure(x, y, th, n)
        return o

    def make():
        p = parameters()
        if kind in ("naive", "repetitive", "footstep", "support", "generator", "trajectory", "trajectory-part"):
            o = planner(p)
            if kind in ("naive", "repetitive"):
                return (p, o), o
            steps = o.plan(side, L, R)
            if kind == "footstep":
                return (p, o, steps), steps[len(steps) - 1]
            sup = placo.FootstepsPlanner.make_supports(steps, 0.0, True, False, True)
            if kind == "support":
                return (p, o, steps, sup), sup[len(sup) - 1]
            r = rb.sigmaban()
            w = placo.WalkPatternGenerator(r, p)
            w.soft = True
            if kind == "generator":
                return (p, o, steps, sup, r, w), (w, sup)
            t = w.plan(sup, np.array([0.0, 0.0, p.walk_com_height]), 0.0)
            return (p, o, steps, sup, r, w, t), (t if kind == "trajectory" else t.parts[len(t.parts) - 1])
        r = rb.sigmaban()
        if kind.startswith("dummy"):
            p.feet_spacing, p.walk_com_height, p.walk_foot_height, p.walk_trunk_pitch = 0.122, 0.3, 0.04, 0.15
            o = placo.DummyWalk(r, p)
            o.reset(False)
            return (r, p, o), {"dummy": o, "dummy-robot": o.robot, "dummy-solver": o.solver}[kind]
        s = placo.KinematicsSolver(r)
        s.enable_joint_limits(False)
        s.problem.regularization = 1e-3
        w = placo.WalkTasks()
        w.trunk_mode = kind == "walk-trunk"
        w.initialize_tasks(s, r)
        w.update_tasks(tg, tg2, com, tg[:3, :3])
        return (r, s, w), {"walk-tasks": lambda: w, "walk-solver": lambda: w.solver, "walk-foot": lambda: w.left_foot_task, "walk-com": lambda: w.com_task, "walk-trunk": lambda: w.trunk_task}[kind]()

    def curve(t):
        out = []
        for k in range(6):
            u = t.t_start + (t.t_end - t.t_start) * k / 5
            out += [t.get_p_world_CoM(u), t.get_v_world_CoM(u), t.get_T_world_left(u), t.get_T_world_right(u), t.get_R_world_trunk(u)]
        return out

    def feet(r):  # the other joints start from noise
        return [r.get_T_world_frame("left_foot"), r.get_T_world_frame("right_foot")]

    def use(o):
        if kind in ("naive", "repetitive"):
            return [f.frame for f in o.plan(side, L, R)]
        if kind == "footstep":
            return [o.frame, o.foot_length, o.foot_width, np.array(o.support_polygon())]
        if kind == "support":
            return [o.frame(), o.t_start, np.array(o.support_polygon()), [f.frame for f in o.footsteps]]
        if kind == "generator":
            w, sup = o
            return curve(w.plan(sup, np.array([0.0, 0.0, keep["walk_com_height"]]), 0.0))
        if kind == "trajectory":
            return curve(o)
        if kind == "trajectory-part":
            return [o.t_start, o.t_end, o.support.frame()]
        if kind == "dummy":
            o.next_step(0.02, 0.0, 0.1)
            o.update(0.3)
            return [feet(o.robot), o.parameters.feet_spacing]
        if kind == "dummy-robot":
            return feet(o)
        if kind == "dummy-solver":
            o.solve(False)
            return [o.N, feet(o.robot)]
        if kind in ("walk-tasks", "walk-solver"):
            s = o.solver if kind == "walk-tasks" else o
            return [s.solve(False), s.N] + ([o.get_tasks_error()] if kind == "walk-tasks" else [])
        if kind == "walk-foot":
            return [o.T_world_frame, o.position().target_world]
        o.update()
        return [o.A, o.b, o.target_world]

    spec = rb.gen_robot(g, min_joints=2, max_joints=4)
    try:
        twins(g, kind, make, use, spec, tol=1e-4 if kind.startswith("dummy") else 1e-7)
    except RuntimeError:
        raise Discard


class Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


def in_use():
    """Bytes obtained from the allocator and not released."""
    f = ctypes.CDLL(None).mallinfo2
    f.restype = Mallinfo
    m = f()
    return m.uordblks + m.hblkhd


def f_released(g):
    """What is made over and over, and not held, does not pile up."""
    spec = rb.gen_robot(g, min_joints=1, max_joints=5, geoms=g.boolean(0.3))
    r0 = rb.make(spec)
    q = rb.gen_q(g, r0)
    f = g.choice(rb.body_frames(r0))
    own, many, drop = g.boolean(), g.integer(1, 4), g.integer(0, 15)
    x = g.vec(4, -1, 1)
    kind = g.choice(["robot", "kinematics", "dynamics", "problem", "reads", "steps", "walk", "walk-tasks"])

    def solver(dyn, r):
        s = placo.DynamicsSolver(r) if dyn else placo.KinematicsSolver(r)
        s.mask_fbase(True)
        s.problem.regularization = 1e-3
        ft = s.add_frame_task(f, np.eye(4))
        ft.configure("frame", "soft", 1.0, 1.0)
        for _ in range(many):
            if own:
                t = (placo.DynamicsCoMTask if dyn else placo.CoMTask)(x[:3])
                s.add_task(t)
            else:
                t = s.add_com_task(x[:3])
            t.configure("com", "soft", 1.0)
        t = s.add_position_task(f, x[:3])
        t.configure("position", "soft", 1.0)
        if dyn:
            k = s.add_point_contact(t)
            if many % 2:
                s.remove_contact(k)
        else:
            k = s.add_yaw_constraint(f, f, 3.0)
            k.configure("yaw", "soft", 1.0)
        if drop & 1 and not dyn:
            s.remove_task(t)
        if drop & 2:
            s.remove_task(ft)
        if drop & 4 and not dyn:
            s.remove_constraint(k)
        if drop & 8:
            s.remove_task(s.add_com_task(x[:3]))
        try:
            s.solve(False)
        except RuntimeError:
            pass
        return s

    r1 = rb.make(spec)
    rb.set_q(r1, q)
    s1 = solver(False, r1)
    p1 = placo.Problem()
    v1 = p1.add_variable(3)
    p1.add_constraint(v1.expr() == x[:3])

    wp = wk.walk_parameters(g)
    L, R = wk.flat(0, wp.feet_spacing / 2, 0), wk.flat(0, -wp.feet_spacing / 2, 0)
    hr = rb.sigmaban() if kind.startswith("walk") else None

    def once():
        if kind == "walk":
            pl = placo.FootstepsPlannerRepetitive(wp)
            pl.configure(0.02, 0.0, 0.05, many)
            steps = pl.plan(placo.HumanoidRobot_Side.left, L, R)
            sup = placo.FootstepsPlanner.make_supports(steps, 0.0, True, False, True)
            w = placo.WalkPatternGenerator(hr, wp)
            w.soft = True
            try:
                t = w.plan(sup, np.array([0.0, 0.0, wp.walk_com_height]), 0.0)
            except RuntimeError:
                return []
            return [t.get_p_world_CoM(0.1), t.get_T_world_left(0.1), t.get_support(0.1).frame()]
        if kind == "walk-tasks":
            s = placo.KinematicsSolver(hr)
            s.enable_joint_limits(False)
            w = placo.WalkTasks()
            w.trunk_mode = own
            w.initialize_tasks(s, hr)
            w.update_tasks(np.eye(4), np.eye(4), x[:3], np.eye(3))
            if many % 2:
                w.remove_tasks()
            return [w, s.solve(False)]
        if kind == "robot":
            r = rb.make(spec)
            rb.set_q(r, q)
            r.update_kinematics()
            return [r.state.q, r.model.nq]
        if kind in ("kinematics", "dynamics"):
            r = rb.make(spec) if own else r1
            rb.set_q(r, q)
            r.update_kinematics()
            return solver(kind == "dynamics", r)
        if kind == "problem":
            p = placo.Problem()
            v = p.add_variable(4)
            p.add_constraint(v.expr() == x)
            p.add_constraint(v.expr() <= 2.0).configure("soft", 1.0)
            o = placo.Integrator(v, x[:2], 2, 0.1)
            p.solve()
            return [o.get_trajectory(), v.value, p.x]
        if kind == "reads":
            return [r1.state.q, r1.mass_matrix(), r1.frame_jacobian(f, "world"), r1.get_T_world_frame(f), r1.com_world(), list(r1.joint_names()), list(r1.frame_names()), s1.N]
        s1.solve(False)
        p1.solve()
        return [p1.x, v1.value]

    n = 12 if kind == "walk" else 80
    for _ in range(n):  # caches fill
        once()
    gc.collect()
    growth = []
    for _ in range(3):
        a = in_use()
        for _ in range(n):
            once()
        gc.collect()
        growth.append((in_use() - a) / n)
    g.cls(kind)
    g.note(kind=kind, growth=growth)
    check(kind, min(growth) <= (4096 if kind == "walk" else 400), lambda: f"{growth} bytes more in use after each use")
    g.nt()


FACETS = [
    Facet("released", f_released, 25, 300, "always"),
    Facet("solvers", f_solvers, 200, 3000, "the object was made from others"),
    Facet("handles", f_handles, 200, 3000, "the handle shows something"),
    Facet("arrays", f_arrays, 400, 5000, "the object was used further"),
    Facet("robot", f_robot, 60, 800, "the object was made from others"),
    Facet("problem", f_problem, 200, 3000, "the object was made from others"),
    Facet("walk", f_walk, 100, 1000, "the object was made from others"),
]
