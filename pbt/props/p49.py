"""P49: settings read back the last value written, whatever else is written, solved, or done to other objects."""
import numpy as np
import placo
import pinocchio as pin
import robots as rb
import walk
from engine import Facet, Violation, Discard, close, check

RULE = "A case is a set of objects (several of one class among them) and a history of writes to their attributes, interleaved with solves; a dictionary holds what each should read. Non-trivial when two attributes of one object or the same attribute of two objects were written."


class Book:
    """What every attribute should read: `cells` are independent values, a view reads or writes some of them."""

    def __init__(self, g):
        self.g, self.cells, self.views, self.written = g, {}, [], set()
        self.log = []

    def view(self, label, obj, attr, gen, cell=None, init=None, writable=True):
        """A plain attribute: one cell, shared when `cell` names one that exists already."""
        key = cell or (label, attr)
        if init is not None:
            self.cells[key] = init

        def write(v):
            setattr(obj, attr, v)
            self.cells[key] = v
        self.views.append((label, attr, gen, write if writable else None, lambda: getattr(obj, attr), lambda: self.cells.get(key), key))

    def pose(self, label, obj, attr, pos, ori, T):
        """A frame, seen as a position cell and an orientation cell."""
        self.cells[pos], self.cells[ori] = T[:3, 3].copy(), T[:3, :3].copy()

        def write(v):
            setattr(obj, attr, v)
            self.cells[pos], self.cells[ori] = v[:3, 3].copy(), v[:3, :3].copy()
        self.views.append((label, attr, lambda g: g.frame(1.0), write, lambda: getattr(obj, attr), lambda: rb.T_of(self.cells[ori], self.cells[pos]), pos))

    def prioritized(self, label, obj, weights=True):
        name, prio = (label, "name"), (label, "priority")
        n = [0]

        def write(v):
            n[0] += 1
            nm = f"{label}_{n[0]}"
            obj.configure(nm, v, 1.5)
            self.cells[name], self.cells[prio] = nm, v
        self.views.append((label, "priority", lambda g: g.choice(["soft", "soft", "soft"]), write, lambda: str(obj.priority), lambda: self.cells.get(prio), prio))
        self.views.append((label, "name", None, None, lambda: obj.name, lambda: self.cells.get(name), name))

    def write(self):
        g = self.g
        k = g.choice([i for i, v in enumerate(self.views) if v[3] is not None])
        label, attr, gen, write, _, _, key = self.views[k]
        v = gen(g)
        if isinstance(v, (float, int, bool)) and g.boolean(0.3):
            v = type(v)(v)
        write(v)
        self.written.add((label, attr))
        self.log.append(f"{label}.{attr}")

    def read(self, view):
        label, attr, _, _, get, want, _ = view
        w = want()
        if w is None:
            return  # never written, its default is not judged here
        v = get()
        tag = f"{label.rstrip('0123456789')}.{attr}"
        if isinstance(w, (bool, str, int)) and not isinstance(w, float):
            check(tag, v == w, f"{label}.{attr} is {v!r}, it was set to {w!r}; history {self.log[-12:]}")
        elif isinstance(w, dict):
            check(tag, v == w, f"{label}.{attr} is {v}, {w} given; history {self.log[-12:]}")
        elif isinstance(w, list):
            check(tag, len(v) == len(w), f"{label}.{attr}: {len(v)} items, {len(w)} given")
            for a, b in zip(v, w):
                close(tag, np.ravel(a), b, atol=1e-12, msg=f"{label}.{attr}; history {self.log[-12:]}")
        else:
            a, b = np.asarray(v, float), np.asarray(w, float)
            close(tag, a.reshape(b.shape) if a.size == b.size else a, b, atol=1e-12, rtol=1e-12, msg=f"{label}.{attr}; history {self.log[-12:]}")

    def read_all(self):
        for v in self.views:
            self.read(v)

    def nontrivial(self):
        labels = [l.rstrip("0123456789") for l, _ in self.written]
        return len(set(labels)) < len(labels)


def V3(g):
    return g.vec(3, -1, 1)


def R3(g):
    return g.rotation()


def B(g):
    return g.boolean()


def F(lo, hi):
    return lambda g: g.pos(lo, hi) if lo > 0 else g.flt(lo, hi)


def unit(g):
    return g.unit(3)


def polygon(g):
    n = g.integer(3, 6)
    r = g.pos(0.1, 1.0)
    a = g.flt(-3, 3)
    return [np.array([r * np.cos(a - 2 * np.pi * k / n), r * np.sin(a - 2 * np.pi * k / n)]) for k in range(n)]


def history(g, bk, solve, n=None):
    for _ in range(n or g.integer(3, 25)):
        k = g.weighted([(8, "write"), (3, "read"), (1, "solve")])
        if k == "write":
            bk.write()
        elif k == "read":
            bk.read(g.choice(bk.views))
        elif solve is not None:
            bk.log.append("solve")
            solve()
    bk.read_all()
    g.note(history=bk.log)
    g.nt(bk.nontrivial())


def joints_task(g, bk, lab, t, joints):
    """Targets of a joints task, set one by one or together; the ones never set raise."""
    cell = (lab, "joints")
    bk.cells[cell] = {}

    def write(d):
        if len(d) == 1 and g.boolean(0.7):
            t.set_joint(*list(d.items())[0])
        else:
            t.set_joints(d)
        bk.cells[cell] = {**bk.cells[cell], **d}

    def get():
        out = {}
        for j in joints:
            try:
                out[j] = t.get_joint(j)
            except RuntimeError:
                pass
        return out
    bk.views.append((lab, "joints", lambda g: {j: g.flt(-2, 2) for j in [g.choice(joints) for _ in range(g.integer(1, 3))]}, write, get, lambda: bk.cells[cell], cell))


def a_robot(g):
    robot = rb.pick(g, w_random=8, w_sig=1, w_quad=1)[0]
    q = rb.gen_q(g, robot)
    rb.set_q(robot, q)
    return robot


def two(g, names):
    a = g.choice(names)
    return a, g.choice([n for n in names if n != a])


def f_kinematics(g):
    robot = a_robot(g)
    names = list(robot.frame_names())
    idx = {n: robot.model.getFrameId(n) for n in names}
    if len(names) < 2:
        raise Discard
    joints = list(robot.joint_names())
    s = placo.KinematicsSolver(robot)
    bk = Book(g)
    for who, o in (("robot", robot), ("solver.robot", s.robot)):  # one and the same
        bk.view(who, o.state, "qd", lambda g: g.gauss_vec(robot.model.nv), cell=("robot", "qd"))
    N = robot.model.nv

    def one(kind, i):
        lab = kind + str(i)
        if kind == "position":
            f, x = g.choice(names), V3(g)
            t = s.add_position_task(f, x)
            bk.view(lab, t, "target_world", V3, init=x)
            bk.view(lab, t, "frame_index", None, init=idx[f], writable=False)
        elif kind == "orientation":
            f, x = g.choice(names), R3(g)
            t = s.add_orientation_task(f, x)
            bk.view(lab, t, "R_world_frame", R3, init=x)
            bk.view(lab, t, "frame_index", None, init=idx[f], writable=False)
        elif kind == "frame":
            f, T = g.choice(names), g.frame(1.0)
            t = s.add_frame_task(f, T)
            bk.pose(lab, t, "T_world_frame", (lab, "p"), (lab, "R"), T)
            bk.view(lab, t.position(), "target_world", V3, cell=(lab, "p"))
            bk.view(lab, t.orientation(), "R_world_frame", R3, cell=(lab, "R"))
            bk.view(lab + "p", t.position(), "frame_index", None, init=idx[f], writable=False)
            bk.view(lab + "o", t.orientation(), "frame_index", None, init=idx[f], writable=False)
            return
        elif kind in ("relative_position", "relative_orientation", "relative_frame", "distance"):
            a, b = two(g, names)
            if kind == "relative_position":
                x = V3(g)
                t = s.add_relative_position_task(a, b, x)
                bk.view(lab, t, "target", V3, init=x)
                parts = [t]
            elif kind == "relative_orientation":
                x = R3(g)
                t = s.add_relative_orientation_task(a, b, x)
                bk.view(lab, t, "R_a_b", R3, init=x)
                parts = [t]
            elif kind == "distance":
                x = F(0.1, 1)(g)
                t = s.add_distance_task(a, b, x)
                bk.view(lab, t, "distance", F(0.1, 1), init=x)
                parts = [t]
            else:
                T = g.frame(1.0)
                t = s.add_relative_frame_task(a, b, T)
                bk.pose(lab, t, "T_a_b", (lab, "p"), (lab, "R"), T)
                bk.view(lab, t.position(), "target", V3, cell=(lab, "p"))
                bk.view(lab, t.orientation(), "R_a_b", R3, cell=(lab, "R"))
                parts = [t.position(), t.orientation()]
            for k, p in enumerate(parts):
                bk.view(lab + "ab"[k], p, "frame_a", None, init=idx[a], writable=False)
                bk.view(lab + "ab"[k], p, "frame_b", None, init=idx[b], writable=False)
            if kind == "relative_frame":
                return
        elif kind == "com":
            x = V3(g)
            t = s.add_com_task(x)
            bk.view(lab, t, "target_world", V3, init=x)
        elif kind == "axisalign":
            f, a, x = g.choice(names), unit(g), unit(g)
            t = s.add_axisalign_task(f, a, x)
            bk.view(lab, t, "axis_frame", unit, init=a)
            bk.view(lab, t, "targetAxis_world", unit, init=x)
            bk.view(lab, t, "frame_index", None, init=idx[f], writable=False)
        elif kind == "wheel":
            j, r, o = g.choice(joints), F(0.02, 0.2)(g), B(g)
            t = s.add_wheel_task(j, r, o)
            bk.view(lab, t, "T_world_surface", lambda g: g.frame(1.0))
            for a, v in (("joint", j), ("radius", r), ("omniwheel", o)):
                bk.view(lab, t, a, None, init=v, writable=False)
        elif kind == "joints":
            t = s.add_joints_task()
            joints_task(g, bk, lab, t, joints)
        elif kind == "momentum":
            x = V3(g)
            t = s.add_centroidal_momentum_task(x)
            bk.view(lab, t, "L_world", V3, init=x)
        elif kind == "manipulability":
            x = F(0.1, 2)(g)
            t = s.add_manipulability_task(g.choice(names), "both", x)
            bk.view(lab, t, "lambda_", F(0.1, 2), init=x)
            bk.view(lab, t, "minimize", B)
        elif kind == "collisions":
            t = s.add_avoid_self_collisions_constraint()
            bk.view(lab, t, "self_collisions_margin", F(1e-3, 0.1))
            bk.view(lab, t, "self_collisions_trigger", F(1e-3, 0.1))
        elif kind == "polygon":
            P, m = polygon(g), F(0.001, 0.05)(g)
            t = s.add_com_polygon_constraint(P, m)
            bk.view(lab, t, "polygon", polygon, init=P)
            bk.view(lab, t, "margin", F(0.001, 0.05), init=m)
            bk.view(lab, t, "dcm", B)
            bk.view(lab, t, "omega", F(1, 5))
        elif kind == "halfspaces":
            def A(g):
                return g.gauss_mat(2, N)

            def b(g):
                return np.abs(g.gauss_vec(2)) + 1.0
            x, y = A(g), b(g)
            t = s.add_joint_space_half_spaces_constraint(x, y)
            bk.view(lab, t, "A", A, init=x)
            bk.view(lab, t, "b", b, init=y)
        elif kind == "cone":
            a, b = two(g, names)
            x = F(0.1, 1)(g)
            t = s.add_cone_constraint(a, b, x)
            bk.view(lab, t, "angle_max", F(0.1, 1), init=x)
            bk.view(lab, t, "N", lambda g: g.integer(4, 12))
            bk.view(lab, t, "range", F(0.1, 1))
        elif kind == "yaw":
            a, b = two(g, names)
            x = F(0.1, 1)(g)
            t = s.add_yaw_constraint(a, b, x)
            bk.view(lab, t, "angle_max", F(0.1, 1), init=x)
        elif kind == "distance_max":
            a, b = two(g, names)
            x = F(0.1, 1)(g)
            t = s.add_distance_constraint(a, b, x)
            bk.view(lab, t, "distance_max", F(0.1, 1), init=x)
        bk.prioritized(lab, t)
        if kind in ("collisions", "polygon", "halfspaces", "cone", "yaw", "distance_max") and g.boolean(0.7):
            t.configure(lab, "soft", 1.0)
            bk.cells[(lab, "name")], bk.cells[(lab, "priority")] = lab, "soft"

    bk.view("solver", s, "dt", F(1e-3, 0.1))
    for n, gen in (("use_sparsity", B), ("rewrite_equalities", B), ("regularization", F(1e-8, 1e-3))):
        bk.view("problem", s.problem, n, gen)
    kinds = ["position", "orientation", "frame", "relative_position", "relative_orientation", "relative_frame", "distance",
             "com", "axisalign", "joints", "wheel", "momentum", "manipulability", "collisions", "polygon", "halfspaces", "cone", "yaw", "distance_max"]
    picked = [g.choice(kinds) for _ in range(g.integer(1, 5))]
    if g.boolean(0.7):
        picked.append(picked[0])  # two of a kind
    for i, k in enumerate(picked):
        one(k, i)
    g.cls(*picked)

    def solve():
        if any(k in ("collisions", "polygon", "halfspaces", "cone", "yaw", "distance_max", "manipulability", "momentum", "wheel") for k in picked):
            return  # may be out of their domain here
        try:
            s.solve(False)
        except RuntimeError:
            pass
    history(g, bk, solve)


def f_dynamics(g):
    robot = a_robot(g)
    names = list(robot.frame_names())
    if len(names) < 2:
        raise Discard
    idx = {n: robot.model.getFrameId(n) for n in names}
    s = placo.DynamicsSolver(robot)
    bk = Book(g)
    for who, o in (("robot", robot), ("solver.robot", s.robot)):  # one and the same
        bk.view(who, o.state, "qd", lambda g: g.gauss_vec(robot.model.nv), cell=("robot", "qd"))
    nv = robot.model.nv
    bk.view("solver", s, "dt", F(1e-3, 0.1))
    bk.view("solver", s, "damping", F(0, 1))
    bk.view("solver", s, "torque_cost", F(1e-4, 1))
    bk.view("solver", s, "gravity_only", B)
    bk.view("solver", s, "extra_force", lambda g: g.gauss_vec(nv))

    def gains(lab, t):
        gained.append((lab, t))
        bk.view(lab, t, "kp", F(1, 1000))
        bk.view(lab, t, "kd", F(1, 100))
        bk.prioritized(lab, t)

    def rates(lab, t, kind, cell=None):
        """Target, its velocity and acceleration."""
        d = {"position": ("target_world", "dtarget_world", "ddtarget_world", V3), "com": ("target_world", "dtarget_world", "ddtarget_world", V3),
             "relative_position": ("target", "dtarget", "ddtarget", V3), "orientation": ("R_world_frame", "omega_world", "domega_world", R3),
             "relative_orientation": ("R_a_b", "omega_a_b", "domega_a_b", R3)}[kind]
        bk.view(lab, t, d[0], d[3], cell=cell)
        bk.view(lab, t, d[1], V3)
        bk.view(lab, t, d[2], V3)

    def one(kind, i):
        lab = kind + str(i)
        f = g.choice(names)
        a, b = two(g, names)
        if kind in ("position", "orientation", "com", "relative_position", "relative_orientation"):
            x = R3(g) if "orientation" in kind else V3(g)
            add = getattr(s, f"add_{kind}_task")
            t = add(x) if kind == "com" else add(a, b, x) if kind.startswith("relative") else add(f, x)
            bk.cells[(lab, "x")] = x
            rates(lab, t, kind, cell=(lab, "x"))
            gains(lab, t)
            if kind == "position":
                bk.view(lab, t, "frame_index", None, init=idx[f], writable=False)
            return t
        if kind in ("frame", "relative_frame"):
            T = g.frame(1.0)
            t = s.add_frame_task(f, T) if kind == "frame" else s.add_relative_frame_task(a, b, T)
            bk.pose(lab, t, "T_world_frame" if kind == "frame" else "T_a_b", (lab, "p"), (lab, "R"), T)
            pre = "" if kind == "frame" else "relative_"
            rates(lab + "p", t.position(), pre + "position", cell=(lab, "p"))
            rates(lab + "o", t.orientation(), pre + "orientation", cell=(lab, "R"))
            return t
        if kind == "joints":
            t = s.add_joints_task()
            joints_task(g, bk, lab, t, list(robot.joint_names()))
            gains(lab, t)
            return t
        if kind in ("point", "unilateral_point"):
            t = one("position", 100 + i)
            c = s.add_point_contact(t) if kind == "point" else s.add_unilateral_point_contact(t)
            bk.view(lab + "t", c.position_task(), "target_world", V3, cell=(f"position{100 + i}", "x"))
            bk.view(lab, c, "R_world_surface", R3)
            bk.view(lab, c, "unilateral", B, init=kind != "point")
        elif kind in ("planar", "fixed", "line", "unilateral_line"):
            t = one("frame", 100 + i)
            c = getattr(s, f"add_{kind}_contact")(t)
            bk.view(lab + "t", c.position_task(), "target_world", V3, cell=(f"frame{100 + i}", "p"))
            bk.view(lab + "t", c.orientation_task(), "R_world_frame", R3, cell=(f"frame{100 + i}", "R"))
            bk.view(lab, c, "unilateral", B, init=kind in ("planar", "unilateral_line"))
            bk.view(lab, c, "length", F(0.05, 0.3))
            if "line" in kind:
                bk.view(lab, c, "R_world_surface", R3)
            else:
                bk.view(lab, c, "width", F(0.05, 0.3))
        elif kind == "external":
            c = s.add_external_wrench_contact(f, g.choice(["world", "local"]))
            bk.view(lab, c, "w_ext", lambda g: g.gauss_vec(6))
            bk.view(lab, c, "frame_index", None, init=idx[f], writable=False)
        elif kind == "puppet":
            c = s.add_puppet_contact()
        elif kind == "task_contact":
            c = s.add_task_contact(one("position", 100 + i))
        elif kind == "collisions":
            c = s.add_avoid_self_collisions_constraint()
            bk.view(lab, c, "self_collisions_margin", F(1e-3, 0.1))
            bk.view(lab, c, "self_collisions_trigger", F(1e-3, 0.1))
            bk.prioritized(lab, c)
            return
        bk.view(lab, c, "active", B)
        bk.view(lab, c, "mu", F(0.1, 2))
        for w in ("weight_forces", "weight_tangentials", "weight_moments"):
            bk.view(lab, c, w, F(1e-4, 1))
        contacts.append((lab, c))

    contacts = []
    gained = []
    kinds = ["joints", "position", "orientation", "com", "relative_position", "relative_orientation", "frame", "relative_frame", "point",
             "unilateral_point", "planar", "fixed", "line", "unilateral_line", "external", "puppet", "task_contact", "collisions"]
    picked = [g.choice(kinds) for _ in range(g.integer(1, 5))]
    if g.boolean(0.7):
        picked.append(picked[0])
    for i, k in enumerate(picked):
        one(k, i)
    check("count_contacts", s.count_contacts() == len(contacts), f"{s.count_contacts()}, {len(contacts)} added")
    for k, (lab, c) in enumerate(contacts):  # the contacts of the solver are these very ones
        bk.view(f"{lab}s", s.get_contact(k), "mu", F(0.1, 2), cell=(lab, "mu"))
        bk.view(f"{lab}s", s.get_contact(k), "active", B, cell=(lab, "active"))
    g.cls(*picked)
    if gained:
        def write(x):  # the gains of all tasks at once
            (s.set_kp if x[0] == "kp" else s.set_kd)(x[1])
            for lab, _ in gained:
                bk.cells[(lab, x[0])] = x[1]
        bk.views.append(("solver", "set_gains", lambda g: (g.choice(["kp", "kd"]), g.pos(1, 100)), write, lambda: 0.0, lambda: None, None))

    def solve():
        if contacts or "collisions" in picked:
            return
        try:
            s.mask_fbase(True)
            s.solve(False)
        except RuntimeError:
            pass
    history(g, bk, solve)


def f_walk(g):
    bk = Book(g)
    n = g.integer(1, 2)
    P = [placo.HumanoidParameters() for _ in range(n)]
    F1 = ("single_support_duration", "double_support_ratio", "startend_double_support_ratio", "zmp_margin", "walk_foot_height", "walk_foot_rise_ratio",
          "walk_com_height", "walk_trunk_pitch", "feet_spacing", "foot_width", "foot_length", "foot_zmp_target_x", "foot_zmp_target_y",
          "zmp_reference_weight", "walk_max_dx_forward", "walk_max_dx_backward", "walk_max_dy", "walk_max_dtheta", "walk_dtheta_spacing")
    for i, p in enumerate(P):
        lab = f"parameters{i}"
        for a in F1:
            bk.view(lab, p, a, F(0.01, 1))
        for a in ("single_support_timesteps", "planned_timesteps"):
            bk.view(lab, p, a, lambda g: g.integer(1, 200))
        for a in ("op_space_polygon", "dcm_offset_polygon"):
            bk.view(lab, p, a, polygon)
    for i in range(n):
        w, l = F(0.05, 0.2)(g), F(0.05, 0.3)(g)
        f = placo.Footstep(w, l)
        lab = f"footstep{i}"
        bk.view(lab, f, "foot_width", F(0.05, 0.2), init=w)
        bk.view(lab, f, "foot_length", F(0.05, 0.3), init=l)
        bk.view(lab, f, "frame", lambda g: walk.flat(*g.vec(3, -1, 1)))
        bk.view(lab, f, "side", lambda g: g.choice([placo.HumanoidRobot_Side.left, placo.HumanoidRobot_Side.right]))
        u = placo.Support()
        lab = f"support{i}"
        for a in ("t_start", "elapsed_ratio", "time_ratio"):
            bk.view(lab, u, a, F(-5, 5))
        bk.view(lab, u, "target_world_dcm", lambda g: g.vec(2, -1, 1))
        for a in ("start", "end"):
            bk.view(lab, u, a, B)
            bk.views.append((lab, "set_" + a, B, lambda v, u=u, a=a, lab=lab: (placo.Support.__dict__["set_" + a](u, v), bk.cells.__setitem__((lab, a), v)),
                             lambda u=u, a=a: getattr(u, a), lambda a=a, lab=lab: bk.cells.get((lab, a)), (lab, a)))
        if g.boolean(0.5):
            part = placo.WPGTrajectoryPart(u, 1.25)
            lab = f"part{i}"
            bk.view(lab, part, "t_start", F(-5, 5), init=1.25)
            bk.view(lab, part, "t_end", F(-5, 5))
        robot = walk.humanoid()
        w = placo.WalkPatternGenerator(robot, P[i])
        lab = f"wpg{i}"
        bk.view(lab, w, "soft", B)
        bk.view(lab, w, "zmp_in_support_weight", F(1, 1e4))
        bk.view(lab, w, "stop_end_support_weight", F(1, 1e4))
        w = placo.WalkTasks()
        lab = f"walk_tasks{i}"
        for a in ("scaled", "trunk_mode"):
            bk.view(lab, w, a, B)
        for a in ("com_x", "com_y"):
            bk.view(lab, w, a, F(-0.1, 0.1))
    history(g, bk, None, g.integer(5, 60))


def f_problem(g):
    bk = Book(g)
    for i in range(g.integer(1, 2)):
        p = placo.Problem()
        lab = f"problem{i}"
        for n, gen in (("use_sparsity", B), ("rewrite_equalities", B), ("regularization", F(1e-8, 1e-3))):
            bk.view(lab, p, n, gen)
        v = p.add_variable(g.integer(1, 4))
        for k in range(g.integer(1, 3)):
            c = p.add_constraint(v.expr() == g.vec(v.k_end - v.k_start, -1, 1))
            lc = f"constraint{i}{k}"
            cell = bk.cells

            def write(x, c=c, lc=lc):
                c.configure(*x)
                bk.cells[(lc, "priority")], bk.cells[(lc, "weight")] = x
            bk.views.append((lc, "configure", lambda g: ("soft", g.pos(1e-3, 1e3)), write, lambda c=c: c.weight, lambda lc=lc: bk.cells.get((lc, "weight")), lc))
            bk.views.append((lc, "priority", None, None, lambda c=c: c.priority, lambda lc=lc: bk.cells.get((lc, "priority")), lc))
        e = placo.Expression()
        bk.view(f"expression{i}", e, "A", lambda g: g.gauss_mat(2, 3))
        bk.view(f"expression{i}", e, "b", lambda g: g.gauss_vec(2))
        t = placo.SparsityInterval()
        bk.view(f"interval{i}", t, "start", lambda g: g.integer(0, 50))
        bk.view(f"interval{i}", t, "end", lambda g: g.integer(0, 50))
        y = placo.Segment(g.vec(2, -1, 1), g.vec(2, -1, 1))
        bk.view(f"segment{i}", y, "start", lambda g: g.vec(2, -1, 1))
        bk.view(f"segment{i}", y, "end", lambda g: g.vec(2, -1, 1))
        pl = placo.Polynom(g.gauss_vec(3))
        bk.view(f"polynom{i}", pl, "coefficients", lambda g: g.gauss_vec(g.integer(1, 5)))
        m = placo.AxisesMask()
        bk.view(f"mask{i}", m, "R_custom_world", R3)
        bk.view(f"mask{i}", m, "R_local_world", R3)

        def solve(p=p):
            try:
                p.solve()
            except RuntimeError:
                pass
    history(g, bk, solve if g.boolean(0.3) else None)


FACETS = [
    Facet("kinematics", f_kinematics, 1500, 25000, "two attributes of a kind written"),
    Facet("dynamics", f_dynamics, 1500, 25000, "two attributes of a kind written"),
    Facet("walk", f_walk, 1500, 20000, "two attributes of a kind written"),
    Facet("problem", f_problem, 1500, 20000, "two attributes of a kind written"),
]
