"""Generated kinematics tasks, with the error and matrix they should have, computed with pinocchio and numpy."""
import math

import numpy as np
import pinocchio as pin
import placo

import robots as rb

LWA = pin.LOCAL_WORLD_ALIGNED


class Ctx:
    """Kinematics of a robot, with data of our own."""

    def __init__(self, robot):
        self.robot, self.m = robot, robot.model
        self.d = self.m.createData()
        self.names = [n for n in self.m.names if n not in ("universe", "root_joint")]
        self.frames = [f.name for f in self.m.frames if f.name != "universe"]
        self.iv = {n: self.m.joints[self.m.getJointId(n)].idx_v for n in self.names}
        self.iq = {n: self.m.joints[self.m.getJointId(n)].idx_q for n in self.names}
        self.nv = self.m.nv

    def T(self, q, f):
        pin.framesForwardKinematics(self.m, self.d, q)
        return self.d.oMf[self.m.getFrameId(f)].homogeneous.copy()

    def J(self, q, f, ref=LWA):
        return pin.computeFrameJacobian(self.m, self.d, q, self.m.getFrameId(f), ref).copy()

    def com(self, q):
        return pin.centerOfMass(self.m, self.d, q).copy()

    def Jcom(self, q):
        return pin.jacobianCenterOfMass(self.m, self.d, q).copy()


def axis_rows(axes):
    return ["xyz".index(c) for c in axes.lower()]


class Mask:
    def __init__(self, axes, frame, R=None):
        self.axes, self.frame, self.R = axes, frame, R

    def set(self, mask):
        mask.set_axises(self.axes, self.frame)
        if self.frame == "custom":
            mask.R_custom_world = self.R

    def apply(self, M, R_local):
        if self.frame == "local":
            M = R_local @ M
        elif self.frame == "custom":
            M = self.R @ M
        return M[axis_rows(self.axes)]

    def __repr__(self):
        return f"{self.axes}/{self.frame}"


def gen_mask(g, local=True):
    if g.boolean(0.5):
        return None
    axes = "".join(a for a in "xyz" if g.boolean(0.5)) or g.choice("xyz")
    if g.boolean(0.2):
        axes = "".join(g.shuffle(list(axes)))
    if g.boolean(0.1):
        axes = axes.upper()
    fr = g.choice(["task", "world", "local", "custom"] if local else ["task", "world", "custom"])
    return Mask(axes, fr, g.rotation() if fr == "custom" else None)


OTHER = rb.T_of(rb.rpy(0.3, -0.2, 0.5), np.array([0.4, -0.1, 0.7]))  # replaced through the setters


class TaskSpec:
    """One task. add(solver) creates it, err(q)/jac(q) give its expected b and A."""
    kind = None
    mask = None
    priority, weight = "soft", 1.0
    late = False  # targets given through the setters, after creation

    def _m(self, M, R_local=np.eye(3)):
        return M if self.mask is None else self.mask.apply(M, R_local)

    def parts(self):
        return [self]

    style = "full"  # "none": left at the defaults (soft, weight 1); "short": the weight is left at its default

    def configure(self, t, name, first=False):
        unit = self.weight == 1.0
        if not (first and self.style == "none" and self.priority == "soft" and unit):
            if first and self.style == "short" and unit:
                t.configure(name, self.priority)
            else:
                t.configure(name, self.priority, self.weight)
        if self.mask is not None:
            self.mask.set(t.mask)

    def describe(self):
        return f"{self.kind}[{self.priority} {self.weight:.3g}]" + (f"({self.mask})" if self.mask else "")


class Position(TaskSpec):
    kind = "position"

    def __init__(self, c, f, target):
        self.c, self.f, self.target = c, f, target

    def add(self, s):
        t = s.add_position_task(self.f, self.target + (1.0 if self.late else 0.0))
        if self.late:
            t.target_world = self.target
        return t

    def err(self, q):
        T = self.c.T(q, self.f)
        return self._m(self.target - T[:3, 3], T[:3, :3].T)

    def jac(self, q):
        return self._m(self.c.J(q, self.f)[:3], self.c.T(q, self.f)[:3, :3].T)


class Orientation(TaskSpec):
    kind = "orientation"

    def __init__(self, c, f, R):
        self.c, self.f, self.R = c, f, R

    def add(self, s):
        t = s.add_orientation_task(self.f, np.eye(3) if self.late else self.R)
        if self.late:
            t.R_world_frame = self.R
        return t

    def err(self, q):
        return self._m(rb.log3(self.R @ self.c.T(q, self.f)[:3, :3].T), self.R.T)

    def jac(self, q):
        return self._m(self.c.J(q, self.f)[3:], self.R.T)


class RelPosition(TaskSpec):
    kind = "relative_position"

    def __init__(self, c, a, b, target):
        self.c, self.a, self.b, self.target = c, a, b, target

    def add(self, s):
        t = s.add_relative_position_task(self.a, self.b, self.target + (1.0 if self.late else 0.0))
        if self.late:
            t.target = self.target
        return t

    def val(self, q):
        return (rb.inv(self.c.T(q, self.a)) @ self.c.T(q, self.b))[:3, 3]

    def err(self, q):
        return self._m(self.target - self.val(q))

    def jac(self, q):
        Ta, Tb = self.c.T(q, self.a), self.c.T(q, self.b)
        Ja, Jb = self.c.J(q, self.a), self.c.J(q, self.b)
        R = Ta[:3, :3].T
        return self._m(R @ (Jb[:3] - Ja[:3]) + R @ rb.skew(Tb[:3, 3] - Ta[:3, 3]) @ Ja[3:])


class RelOrientation(TaskSpec):
    kind = "relative_orientation"

    def __init__(self, c, a, b, R):
        self.c, self.a, self.b, self.R = c, a, b, R

    def add(self, s):
        t = s.add_relative_orientation_task(self.a, self.b, np.eye(3) if self.late else self.R)
        if self.late:
            t.R_a_b = self.R
        return t

    def val(self, q):
        return self.c.T(q, self.a)[:3, :3].T @ self.c.T(q, self.b)[:3, :3]

    def err(self, q):
        return self._m(rb.log3(self.R @ self.val(q).T))

    def jac(self, q):
        Ta = self.c.T(q, self.a)
        return self._m(Ta[:3, :3].T @ (self.c.J(q, self.b)[3:] - self.c.J(q, self.a)[3:]))


class Frame(TaskSpec):
    kind = "frame"

    def __init__(self, c, f, T):
        self.c, self.f, self.Tt = c, f, T
        self.pos, self.ori = Position(c, f, T[:3, 3]), Orientation(c, f, T[:3, :3])
        self.weight2 = 1.0

    def parts(self):
        return [self.pos, self.ori]

    def add(self, s):
        t = s.add_frame_task(self.f, OTHER if self.late else self.Tt)
        if self.late:
            t.T_world_frame = self.Tt
        return t

    def configure(self, t, name, first=False):
        if not (first and self.style == "none" and self.priority == "soft" and self.weight == self.weight2 == 1.0):
            if first and self.style == "short" and self.weight2 == 1.0:
                if self.weight == 1.0:
                    t.configure(name, self.priority)
                else:
                    t.configure(name, self.priority, self.weight)
            else:
                t.configure(name, self.priority, self.weight, self.weight2)
        self.pos.priority = self.ori.priority = self.priority
        self.pos.weight, self.ori.weight = self.weight, self.weight2

    def sub(self, t):
        return [t.position(), t.orientation()]


class RelFrame(Frame):
    kind = "relative_frame"

    def __init__(self, c, a, b, T):
        self.c, self.a, self.b, self.Tt = c, a, b, T
        self.pos, self.ori = RelPosition(c, a, b, T[:3, 3]), RelOrientation(c, a, b, T[:3, :3])
        self.weight2 = 1.0

    def add(self, s):
        t = s.add_relative_frame_task(self.a, self.b, OTHER if self.late else self.Tt)
        if self.late:
            t.T_a_b = self.Tt
        return t


class CoM(TaskSpec):
    kind = "com"

    def __init__(self, c, target):
        self.c, self.target = c, target

    def add(self, s):
        t = s.add_com_task(self.target + (1.0 if self.late else 0.0))
        if self.late:
            t.target_world = self.target
        return t

    def err(self, q):
        return self._m(self.target - self.c.com(q))

    def jac(self, q):
        return self._m(self.c.Jcom(q))


class Joints(TaskSpec):
    kind = "joints"

    def __init__(self, c, targets):
        self.c, self.t = c, dict(targets)

    def add(self, s):
        t = s.add_joints_task()
        if self.late:
            for k, v in self.t.items():
                t.set_joint(k, v + 1.0)
            for k, v in self.t.items():
                t.set_joint(k, v)
        else:
            t.set_joints(self.t)
        return t

    def err(self, q):
        return np.array([self.t[k] - q[self.c.iq[k]] for k in sorted(self.t)])

    def jac(self, q):
        return np.array([np.eye(self.c.nv)[self.c.iv[k]] for k in sorted(self.t)])


class Gear(TaskSpec):
    """gears: {target: {source: ratio}}: the target is the sum of ratio * source."""
    kind = "gear"

    def __init__(self, c, gears):
        self.c, self.gears = c, gears

    def add(self, s):
        t = s.add_gear_task()
        for k, src in self.gears.items():
            first = True
            for n, r in src.items():
                if first:
                    if self.late:
                        for n2 in [n] + [x for x in self.c.names if x not in (k, n)][:2]:  # forgotten by set_gear
                            t.add_gear(k, n2, r + 1.0)
                    t.set_gear(k, n, r)
                else:
                    t.add_gear(k, n, r)
                first = False
        return t

    def rows(self):
        return sorted(self.gears, key=lambda k: self.c.iv[k])

    def err(self, q):
        return np.array([q[self.c.iq[k]] - sum(r * q[self.c.iq[n]] for n, r in self.gears[k].items()) for k in self.rows()])

    def jac(self, q):
        A = np.zeros((len(self.gears), self.c.nv))
        for i, k in enumerate(self.rows()):
            A[i, self.c.iv[k]] = -1
            for n, r in self.gears[k].items():
                A[i, self.c.iv[n]] = r
        return A


class Distance(TaskSpec):
    kind = "distance"

    def __init__(self, c, a, b, dist):
        self.c, self.a, self.b, self.dist = c, a, b, dist

    def add(self, s):
        t = s.add_distance_task(self.a, self.b, 0.0 if self.late else self.dist)
        if self.late:
            t.distance = self.dist
        return t

    def vec(self, q):
        return self.c.T(q, self.b)[:3, 3] - self.c.T(q, self.a)[:3, 3]

    def err(self, q):
        return np.array([self.dist - np.linalg.norm(self.vec(q))])

    def jac(self, q):
        v = self.vec(q)
        n = v / np.linalg.norm(v)
        return (n @ (self.c.J(q, self.b)[:3] - self.c.J(q, self.a)[:3])).reshape(1, -1)


class AxisAlign(TaskSpec):
    kind = "axisalign"

    def __init__(self, c, f, axis, target):
        self.c, self.f, self.axis, self.target = c, f, axis, target

    def add(self, s):
        t = s.add_axisalign_task(self.f, np.array([1.0, 0, 0]) if self.late else self.axis, np.array([1.0, 0, 0]) if self.late else self.target)
        if self.late:
            t.axis_frame = self.axis
            t.targetAxis_world = self.target
        return t

    def axes(self, q):
        a = self.c.T(q, self.f)[:3, :3] @ (self.axis / np.linalg.norm(self.axis))
        t = self.target / np.linalg.norm(self.target)
        return a, t

    def angle(self, q):
        a, t = self.axes(q)
        return math.atan2(np.linalg.norm(np.cross(a, t)), a @ t)

    def err(self, q):
        return np.array([0.0, self.angle(q)])

    def jac(self, q):
        a, t = self.axes(q)
        z = np.cross(a, t)
        if np.linalg.norm(z) < 1e-9:
            z = np.cross(a, np.eye(3)[int(np.argmin(np.abs(a)))])
        z = z / np.linalg.norm(z)
        y = np.cross(z, a)
        Jw = self.c.J(q, self.f)[3:]
        return np.vstack([y @ Jw, z @ Jw])


class Momentum(TaskSpec):
    kind = "momentum"

    def __init__(self, c, L, dt):
        self.c, self.L, self.dt = c, L, dt

    def add(self, s):
        t = s.add_centroidal_momentum_task(self.L)
        return t

    def err(self, q):
        return self._m(self.L)

    def jac(self, q):
        Ag = pin.computeCentroidalMap(self.c.m, self.c.d, q).copy()
        return self._m(Ag[3:]) / self.dt


class Wheel(TaskSpec):
    kind = "wheel"

    def __init__(self, c, joint, radius, omni, T):
        self.c, self.joint, self.radius, self.omni, self.Ts = c, joint, radius, omni, T

    def add(self, s):
        t = s.add_wheel_task(self.joint, self.radius, self.omni)
        if not np.allclose(self.Ts, np.eye(4)):
            t.T_world_surface = self.Ts
        return t

    def geometry(self, q):
        W = self.c.T(q, self.joint)
        n = self.Ts[:3, 2]  # surface normal
        ax = W[:3, 2]  # wheel axis
        down = -(n - ax * (n @ ax))
        down = down / np.linalg.norm(down)
        P = W[:3, 3] + self.radius * down
        x = np.cross(ax, n)
        x = x / np.linalg.norm(x)
        return W, n, x, np.cross(n, x), P

    def rows(self):
        return [0, 2] if self.omni else [0, 1, 2]

    def err(self, q):
        W, n, x, y, P = self.geometry(q)
        return np.array([0, 0, -(P - self.Ts[:3, 3]) @ n])[self.rows()]

    def jac(self, q):
        W, n, x, y, P = self.geometry(q)
        J = self.c.J(q, self.joint)
        Jp = J[:3] - rb.skew(P - W[:3, 3]) @ J[3:]
        return np.vstack([x, y, n])[self.rows()] @ Jp


KINDS = ["position", "orientation", "relative_position", "relative_orientation", "frame", "relative_frame", "com", "joints", "gear", "distance", "axisalign", "momentum", "wheel"]


def read_back(sp, t):
    """[(what, value read on the task, value given)]"""
    k = sp.kind
    if k in ("position", "com"):
        return [("target_world", t.target_world, sp.target)]
    if k == "relative_position":
        return [("target", t.target, sp.target)]
    if k == "orientation":
        return [("R_world_frame", t.R_world_frame, sp.R)]
    if k == "relative_orientation":
        return [("R_a_b", t.R_a_b, sp.R)]
    if k == "frame":
        return [("T_world_frame", t.T_world_frame, sp.Tt), ("position target", t.position().target_world, sp.Tt[:3, 3]), ("orientation target", t.orientation().R_world_frame, sp.Tt[:3, :3])]
    if k == "relative_frame":
        return [("T_a_b", t.T_a_b, sp.Tt), ("position target", t.position().target, sp.Tt[:3, 3]), ("orientation target", t.orientation().R_a_b, sp.Tt[:3, :3])]
    if k == "joints":
        return [(n, t.get_joint(n), v) for n, v in sp.t.items()]
    if k == "distance":
        return [("distance", t.distance, sp.dist)]
    if k == "wheel":
        return [("radius", t.radius, sp.radius), ("omniwheel", t.omniwheel, sp.omni), ("T_world_surface", t.T_world_surface, sp.Ts)]
    return []


def gen_task(g, c, q_goal, kinds=KINDS, dt=0.01, masks=True, spread=0.0, special=False):
    """A task whose goal is met at q_goal, moved away by about `spread`; special: some targets are exactly null."""
    kind = g.choice(kinds)
    null = special and g.boolean(0.08)
    f, f2 = g.choice(c.frames), g.choice(c.frames)
    T = c.T(q_goal, f)
    off = g.vec(3, -spread, spread) if spread else np.zeros(3)
    Roff = g.rotation(min(3.0, 2 * spread)) if spread else np.eye(3)
    if kind == "position":
        t = Position(c, f, T[:3, 3] + off if not null else np.zeros(3))
        t.mask = gen_mask(g) if masks else None
    elif kind == "orientation":
        t = Orientation(c, f, Roff @ T[:3, :3])
        t.mask = gen_mask(g) if masks else None
    elif kind in ("relative_position", "relative_orientation", "relative_frame"):
        if f == f2:
            f2 = c.frames[(c.frames.index(f) + 1) % len(c.frames)]
        X = rb.inv(T) @ c.T(q_goal, f2)
        if kind == "relative_position":
            t = RelPosition(c, f, f2, X[:3, 3] + off if not null else np.zeros(3))
            t.mask = gen_mask(g, local=False) if masks else None
        elif kind == "relative_orientation":
            t = RelOrientation(c, f, f2, Roff @ X[:3, :3])
            t.mask = gen_mask(g, local=False) if masks else None
        else:
            t = RelFrame(c, f, f2, rb.T_of(Roff @ X[:3, :3], X[:3, 3] + off if not null else np.zeros(3)))
    elif kind == "frame":
        t = Frame(c, f, rb.T_of(Roff @ T[:3, :3], T[:3, 3] + off if not null else np.zeros(3)))
    elif kind == "com":
        t = CoM(c, c.com(q_goal) + off if not null else np.zeros(3))
        t.mask = gen_mask(g, local=False) if masks else None
    elif kind == "joints":
        ns = g.subset(c.names, 0.6) or [g.choice(c.names)]
        t = Joints(c, {n: float(q_goal[c.iq[n]]) + (g.flt(-spread, spread) if spread else 0.0) for n in ns})
    elif kind == "gear":
        if len(c.names) < 2:
            return gen_task(g, c, q_goal, [k for k in kinds if k != "gear"] or ["position"], dt, masks, spread)
        gears = {}
        for _ in range(g.small(1, 2)):
            tgt = g.choice(c.names)
            srcs = [n for n in g.shuffle([n for n in c.names if n != tgt])][:g.small(1, 4)]
            gears[tgt] = {n: g.flt(-2, 2) for n in srcs}
        t = Gear(c, gears)
    elif kind == "distance":
        if f == f2:
            f2 = c.frames[(c.frames.index(f) + 1) % len(c.frames)]
        d = float(np.linalg.norm(c.T(q_goal, f2)[:3, 3] - T[:3, 3]))
        t = Distance(c, f, f2, abs(d + (g.flt(-spread, spread) if spread else 0.0)))
    elif kind == "axisalign":
        ax = g.unit(3)
        t = AxisAlign(c, f, ax * g.choice([1.0, 2.0, 0.5, 1e-3, 1e3]), Roff @ T[:3, :3] @ ax * g.choice([1.0, 3.0, 1e-3, 1e3]))
    elif kind == "momentum":
        t = Momentum(c, g.vec(3, -1, 1), dt)
        t.mask = gen_mask(g, local=False) if masks else None
    else:
        j = g.choice(c.names)
        t = Wheel(c, j, g.flt(0.02, 0.3, 0.1), g.boolean(), g.frame(0.5) if g.boolean(0.4) else np.eye(4))
    t.late = g.boolean(0.3)
    return t


# ----------------------------------------------------------------------------------------------
# whole solvers
class Scene:
    """A robot, its state, and everything a kinematics solver holds. build() makes the solver, rows(q) the QP it should solve."""

    def __init__(self):
        self.tasks, self.cons, self.masked = [], [], []
        self.mask_base = False
        self.dt = 0.0
        self.vel = False
        self.lim = True
        self.reg = []  # ("regularization", weight, {joint: weight}) | ("energy", magnitude)
        self.reg0 = None  # problem.regularization

    def build(self, robot=None, order=None):
        r = robot or self.c.robot
        s = r.make_solver() if len(self.tasks) % 3 == 1 else placo.KinematicsSolver(r)
        s.dt = self.dt
        items = [("t", t) for t in self.tasks] + [("r", r) for r in self.reg] + [("c", k) for k in self.cons]
        if order is not None:
            items = [items[i] for i in order]
        self.handles = {}
        for n, (k, x) in enumerate(items):
            if k == "t":
                h = x.add(s)
                x.configure(h, f"task{n}", True)
            elif k == "r":
                if x[0] == "energy":
                    h = s.add_kinetic_energy_regularization_task(x[1])
                else:
                    h = s.add_regularization_task(x[1])
                    for j, w in x[2].items():
                        h.set_joint_weight(j, w)
            else:
                h = x.add(s)
                h.configure(f"con{n}", x.priority, x.weight)
            self.handles[id(x)] = h
        for j in self.masked:
            s.mask_dof(j)
        if self.mask_base:
            s.mask_fbase(True)
        if not self.lim:
            s.enable_joint_limits(False)
        if self.vel:
            s.enable_velocity_limits(True)
        if self.reg0 is not None:
            s.problem.regularization = self.reg0
        return s

    def scaled(self):
        return any(p.priority == "scaled" for t in self.tasks for p in t.parts())

    def spec(self, q):
        """The QP the solve stands for, as a qp.Spec over (dq[, scale])."""
        import qp
        c = self.c
        sc = self.scaled()
        n = c.nv + (1 if sc else 0)
        sp = qp.Spec()
        sp.sizes = [c.nv] + ([1] if sc else [])

        def full(A):
            return np.hstack([A, np.zeros((A.shape[0], n - c.nv))])
        for t in self.tasks:
            for p in t.parts():
                A, b = np.atleast_2d(p.jac(q)), np.atleast_1d(p.err(q))
                if p.priority == "scaled":
                    A = np.hstack([A, -b.reshape(-1, 1)])
                    b = np.zeros(len(b))
                else:
                    A = full(A)
                k = qp.Con("eq", A, -b, "soft" if p.priority == "soft" else "hard", p.weight, p.kind)
                k.scaled = p.priority == "scaled"
                sp.cons.append(k)
        if sc:
            row = np.zeros((1, n))
            row[0, -1] = 1
            sp.cons.append(qp.Con("ineq", row, np.zeros(1), form="scale"))
            sp.cons.append(qp.Con("ineq", -row, np.ones(1), form="scale"))
            sp.cons.append(qp.Con("eq", row, -np.ones(1), "soft", 1.0, form="scale"))
        I = np.eye(n)
        for j in self.masked:
            sp.cons.append(qp.Con("eq", I[c.iv[j]:c.iv[j] + 1], np.zeros(1), form="masked"))
        if self.mask_base:
            sp.cons.append(qp.Con("eq", I[:6], np.zeros(6), form="masked-base"))
        if self.lim:
            for j in c.names:
                lo, up = self.limits[j]
                r = I[c.iv[j]:c.iv[j] + 1]
                x = q[c.iq[j]]
                if up < rb.BIG:
                    sp.cons.append(qp.Con("ineq", -r, np.array([up - x]), form="joint-limit"))
                if lo > -rb.BIG:
                    sp.cons.append(qp.Con("ineq", r, np.array([x - lo]), form="joint-limit"))
        if self.vel:
            for j in c.names:
                v = self.vmax[j] * self.dt
                r = I[c.iv[j]:c.iv[j] + 1]
                sp.cons.append(qp.Con("ineq", np.vstack([-r, r]), np.array([v, v]), form="velocity-limit"))
        for r in self.reg:
            if r[0] == "energy":
                M = pin.crba(c.m, c.d, q)
                M = np.triu(M) + np.triu(M, 1).T
                L = np.linalg.cholesky(M).T / (math.sqrt(2) * self.dt)
                sp.cons.append(qp.Con("eq", full(L), np.zeros(c.nv), "soft", r[1], form="energy"))
            else:
                D = np.zeros((len(c.names), n))
                for i, j in enumerate(c.names):
                    D[i, c.iv[j]] = math.sqrt(r[2].get(j, r[1]))
                sp.cons.append(qp.Con("eq", D, np.zeros(len(c.names)), "soft", 1.0, form="regularization"))
        for k in self.cons:
            A, b = k.rows(q)
            sp.cons.append(qp.Con("ineq", full(A), b, k.priority, k.weight, form=k.kind))
        return sp

    def describe(self):
        return {"tasks": [t.describe() for t in self.tasks], "regularizations": [str(r) for r in self.reg], "masked": list(self.masked), "masked base": self.mask_base,
                "dt": self.dt, "velocity limits": self.vel, "joint limits": self.lim, "constraints": [k.describe() for k in self.cons]}


def gen_scene(g, n_tasks=4, kinds=KINDS, reach=0.3, prios=("soft", "hard", "scaled"), hard_room=3, masks=True, regs=True, wlo=0.05, whi=20.0, robot=None):
    sc = Scene()
    if robot is None:
        r, spec, kind = rb.pick(g, w_random=10, min_joints=2, max_joints=8)
        g.cls(kind)
    else:
        r, spec, kind = robot
    c = sc.c = Ctx(r)
    sc.robot_spec = spec
    # some limits and velocities are changed on the model
    sc.limits, sc.vmax = {}, {}
    for j in c.names:
        if g.boolean(0.15):
            lo, up = -g.flt(0.2, 2, 0.1), g.flt(0.2, 2, 0.1)
            r.set_joint_limits(j, lo, up)
        lo, up = (float(v) for v in r.get_joint_limits(j))
        sc.limits[j] = (lo, up)
        if g.boolean(0.3):
            r.set_velocity_limit(j, g.pos(0.02, 20))
        sc.vmax[j] = float(c.m.velocityLimit[c.iv[j]])
    q = rb.gen_q(g, r, scale=1.05, shrink=0.0)
    q = np.array(q)
    for j in c.names:
        lo, up = sc.limits[j]
        if lo > -rb.BIG:
            q[c.iq[j]] = min(max(q[c.iq[j]], lo), up)
    sc.q = q
    rb.set_q(r, q)
    sc.goal = rb.integ(c.m, q, g.gauss_vec(c.nv) * g.choice([reach, 0.3 * reach, 0.05]))
    sc.dt = g.choice([0.0, 0.0005, 0.005, 0.05, 0.2])
    if sc.dt > 0:
        sc.vel = g.boolean(0.5)
    sc.lim = not g.boolean(0.25)
    dense = g.weighted([(6, 0.1), (1, 0.6)])
    for j in c.names:
        if masks and g.boolean(dense):
            sc.masked.append(j)
    sc.mask_base = masks and g.boolean(0.25)
    ks = [k for k in kinds if not (k == "momentum" and sc.dt == 0)]
    for _ in range(g.integer(1, n_tasks)):
        t = gen_task(g, c, sc.goal, ks, dt=sc.dt or 1.0, spread=g.choice([0.0, 0.0, 0.1]))
        t.priority = g.weighted([(5, "soft"), (2, "hard"), (1, "scaled")]) if len(prios) > 1 else prios[0]
        if t.priority not in prios:
            t.priority = "soft"
        t.weight = 1.0 if g.boolean(0.3) else g.pos(wlo, whi)
        if hasattr(t, "weight2"):
            t.weight2 = 1.0 if g.boolean(0.4) else g.pos(wlo, whi)
            t.pos.priority = t.ori.priority = t.priority
            t.pos.weight, t.ori.weight = t.weight, t.weight2
        t.style = g.weighted([(2, "full"), (1, "none"), (1, "short")])
        sc.tasks.append(t)
    if regs and g.boolean(0.6):
        if sc.dt > 0 and g.boolean(0.3):
            sc.reg.append(("energy", g.pos(1e-6, 1e-1)))
        else:
            sc.reg.append(("regularization", g.pos(1e-6, 1e-1), {j: (0.0 if g.boolean(0.15) else g.pos(1e-4, 1.0)) for j in c.names if g.boolean(0.2)}))
    return sc


def reweight(g, c, h, x):
    """Other weights for a regularization (its spec x) through its handle; the new spec."""
    w, per = x[1], dict(x[2])
    if g.boolean():
        w = g.pos(1e-4, 1e-1)
        h.set_weight(w)
    for j in c.names:
        if g.boolean(0.6 if j in per else 0.2):
            per[j] = g.pos(1e-4, 1.0)
            h.set_joint_weight(j, per[j])
    return ("regularization", w, per)


def degenerate(sc, q):
    """Configurations where a task is not differentiable."""
    for t in sc.tasks:
        for p in t.parts():
            if p.kind == "distance" and np.linalg.norm(p.vec(q)) < 5e-3:
                return True
            if p.kind == "wheel" and np.linalg.norm(np.cross(p.Ts[:3, 2], sc.c.T(q, p.joint)[:3, 2])) < 0.05:
                return True
            if p.kind == "orientation" and np.trace(p.R @ sc.c.T(q, p.f)[:3, :3].T) < -0.9:
                return True
            if p.kind == "relative_orientation" and np.trace(p.R @ p.val(q).T) < -0.9:
                return True
            if p.kind == "axisalign" and not 1e-4 < p.angle(q) < math.pi - 1e-4:
                return True
    return False


def witness(sp, margin=1e-3, bound=50):
    """A point meeting the hard rows with the inequalities slack by `margin`, or None. Also the conditioning of the equalities."""
    import qp
    from scipy.optimize import linprog
    E, e = qp.hard_eq(sp)
    G = [(k.A, k.b) for k in sp.cons if k.kind == "ineq" and k.prio == "hard"]
    A = -np.vstack([a for a, _ in G]) if G else None
    b = np.concatenate([x for _, x in G]) - margin if G else None
    # masked coordinates are fixed to 0: rows on them only cannot be slack
    if A is not None:
        fixed = [k.A for k in sp.cons if k.form in ("masked", "masked-base")]
        if fixed:
            F = np.abs(np.vstack(fixed)).sum(axis=0) > 0
            keep = np.abs(A[:, ~F]).max(axis=1, initial=0.0) > 1e-9
            free = np.linalg.matrix_rank(E, 1e-9) < sp.n  # without freedom left the QP library has no tolerance
            least = np.concatenate([np.full(len(k.b), -1e-7 if "limit" in k.form and free else 1e-9) for k in sp.cons if k.kind == "ineq" and k.prio == "hard"])
            if np.any(b[~keep] + margin < least[~keep]):  # on the border of a region with no freedom left: rounding decides
                return None
            A, b = A[keep], b[keep]
            if not len(A):
                A = b = None
    r = linprog(np.zeros(sp.n), A_ub=A, b_ub=b, A_eq=E if E.shape[0] else None, b_eq=-e if E.shape[0] else None, bounds=(-bound, bound), method="highs")
    return r.x if r.status == 0 else None


def numerically_refused(s):
    """After a refusal: is it only the QP library struggling with a nearly flat objective (the same problem with a more
    regularized objective, hence the same hard rows, is accepted)? The solver is not to be used afterwards."""
    s.add_regularization_task(1e-3)
    try:
        s.solve(False)
        return True
    except RuntimeError:
        return False


def solve(s):
    """The displacement of a problem known to have room."""
    from engine import Discard
    try:
        return np.array(s.solve(False)).reshape(-1)
    except RuntimeError:
        if numerically_refused(s):
            raise Discard
        raise


def eq_conditioning(sp):
    """(rank deficient, smallest non null singular value / largest)"""
    import qp
    E, e = qp.hard_eq(sp)
    if not E.shape[0]:
        return False, 1.0
    s = np.linalg.svd(E, compute_uv=False)
    nz = s[s > 1e-10 * max(s[0], 1e-3)]
    if not len(nz):
        return True, 0.0  # rows made of rounding errors only
    return len(nz) < E.shape[0], float(nz[-1] / max(s[0], 1.0))


def solver_tolerance(sp, reg=1e-8):
    """The accuracy on inequalities that the underlying QP solver aims for: it grows with the spread of the objective's curvature."""
    import qp
    n = sp.n
    P = reg * np.eye(n)
    m = 0
    for k in sp.cons:
        if k.prio == "soft":
            P = P + k.w * k.A.T @ k.A
        if k.kind == "ineq":
            m += k.A.shape[0]
    E, _ = qp.hard_eq(sp)
    if E.shape[0]:
        _, s, Vt = np.linalg.svd(E)
        Z = Vt[int(np.sum(s > 1e-9)):].T
        P = Z.T @ P @ Z
    if not P.shape[0]:
        return 0.0
    ev = np.maximum(np.linalg.eigvalsh(P), reg)
    return m * 2.2e-16 * ev.sum() * np.sum(1 / np.sqrt(ev)) * 100


# ----------------------------------------------------------------------------------------------
# constraints: rows(q) gives A, b with the documented A dq + b >= 0; value(q) >= 0 is the region itself
class ConSpec:
    kind = None
    priority, weight = "hard", 1.0
    late = False

    def describe(self):
        return f"{self.kind}[{self.priority} {self.weight:.3g}]"

    def ok(self, q):
        return True


class ComPolygon(ConSpec):
    kind = "com-polygon"

    def __init__(self, c, poly, margin, dcm=None, dt=0.0):
        self.c, self.poly, self.margin, self.dcm, self.dt = c, poly, margin, dcm, dt

    def add(self, s):
        import qp
        h = s.add_com_polygon_constraint([np.array(p) for p in self.poly], 0.0 if self.late else self.margin)
        if self.late:
            h.margin = self.margin
        if self.dcm:
            h.dcm = True
            h.omega = self.dcm
        return h

    def rows(self, q):
        import qp
        N, o = qp.polygon_rows(self.poly, self.margin)
        J = self.c.Jcom(q)[:2]
        if self.dcm:
            J = J * (1 + 1 / (self.dt * self.dcm))
        return N @ J, N @ self.c.com(q)[:2] + o

    def values(self, q):
        import qp
        N, o = qp.polygon_rows(self.poly, self.margin)
        return N @ self.c.com(q)[:2] + o

    def value(self, q):
        return float(np.min(self.values(q)))


class RelCon(ConSpec):
    def rel(self, q):
        Ta, Tb = self.c.T(q, self.a), self.c.T(q, self.b)
        Ja, Jb = self.c.J(q, self.a), self.c.J(q, self.b)
        R = Ta[:3, :3].T
        return R @ Tb[:3, :3], R @ (Jb[3:] - Ja[3:])


class Cone(RelCon):
    kind = "cone"

    def __init__(self, c, a, b, amax, N=8, rng=0.25):
        self.c, self.a, self.b, self.amax, self.N, self.rng = c, a, b, amax, N, rng

    def add(self, s):
        h = s.add_cone_constraint(self.a, self.b, 1.0 if self.late else self.amax)
        if self.late:
            h.angle_max = self.amax
        if self.N != 8:
            h.N = self.N
        if self.rng != 0.25:
            h.range = self.rng
        return h

    def rows(self, q):
        R, J = self.rel(q)
        z = R[:, 2]
        al = math.atan2(z[1], z[0])
        A, b = [], []
        for k in range(self.N):
            s = al + 2 * k * self.rng / self.N - self.rng
            u = np.array([math.cos(s), math.sin(s), 0.0])
            # angle of the axis in the slice of direction u, and its variation
            A.append(-np.cross([0, 0, 1.0], u) @ J)
            b.append(self.amax - math.atan2(z @ u, z[2]))
        return np.array(A), np.array(b)

    def angle(self, q):
        z = self.rel(q)[0][:, 2]
        return math.atan2(math.hypot(z[0], z[1]), z[2])

    def value(self, q):
        return self.amax - self.angle(q)

    def ok(self, q):
        return 0.02 < self.angle(q) < math.pi / 2 - 0.02


class Yaw(RelCon):
    kind = "yaw"

    def __init__(self, c, a, b, amax):
        self.c, self.a, self.b, self.amax = c, a, b, amax

    def add(self, s):
        h = s.add_yaw_constraint(self.a, self.b, 1.0 if self.late else self.amax)
        if self.late:
            h.angle_max = self.amax
        return h

    def yaw(self, q):
        x = self.rel(q)[0][:, 0]
        return math.atan2(x[1], x[0])

    def rows(self, q):
        R, J = self.rel(q)
        x = R[:, 0]
        dx = -rb.skew(x) @ J
        n2 = x[0] ** 2 + x[1] ** 2
        dy = (x[0] * dx[1] - x[1] * dx[0]) / n2
        y = math.atan2(x[1], x[0])
        return np.vstack([-dy, dy]), np.array([self.amax - y, self.amax + y])

    def value(self, q):
        return self.amax - abs(self.yaw(q))

    def ok(self, q):
        x = self.rel(q)[0][:, 0]
        return math.hypot(x[0], x[1]) > 0.15 and abs(self.yaw(q)) < 2.8


class DistanceMax(ConSpec):
    kind = "distance-max"

    def __init__(self, c, a, b, dmax):
        self.c, self.a, self.b, self.dmax = c, a, b, dmax

    def add(self, s):
        h = s.add_distance_constraint(self.a, self.b, 1.0 if self.late else self.dmax)
        if self.late:
            h.distance_max = self.dmax
        return h

    def vec(self, q):
        return self.c.T(q, self.b)[:3, 3] - self.c.T(q, self.a)[:3, 3]

    def rows(self, q):
        v = self.vec(q)
        d = np.linalg.norm(v)
        return -(v / d @ (self.c.J(q, self.b)[:3] - self.c.J(q, self.a)[:3])).reshape(1, -1), np.array([self.dmax - d])

    def value(self, q):
        return self.dmax - float(np.linalg.norm(self.vec(q)))

    def ok(self, q):
        return np.linalg.norm(self.vec(q)) > 0.02


class HalfSpaces(ConSpec):
    kind = "half-spaces"

    def __init__(self, c, A, b):
        self.c, self.A, self.b = c, A, b

    def add(self, s):
        if self.late:
            h = s.add_joint_space_half_spaces_constraint(np.zeros_like(self.A), self.b)
            h.A = self.A
            return h
        return s.add_joint_space_half_spaces_constraint(self.A, self.b)

    def rows(self, q):
        return np.hstack([np.zeros((len(self.b), 6)), -self.A[:, 7:]]), self.b - self.A[:, 7:] @ q[7:]

    def value(self, q):
        return float(np.min(self.b - self.A[:, 7:] @ q[7:]))


class SelfCollisions(ConSpec):
    """Rows from the distances reported by the robot in its current configuration (their truth is P15)."""
    kind = "self-collisions"

    def __init__(self, c, margin, trigger):
        self.c, self.margin, self.trigger = c, margin, trigger

    def add(self, s):
        h = s.add_avoid_self_collisions_constraint()
        h.self_collisions_margin, h.self_collisions_trigger = self.margin, self.trigger
        return h

    def point_J(self, q, joint, p):
        pin.computeJointJacobians(self.c.m, self.c.d, q)
        J = pin.getJointJacobian(self.c.m, self.c.d, joint, pin.WORLD)
        return J[:3] - rb.skew(p) @ J[3:]

    def rows(self, q):
        A, b = [np.zeros((0, self.c.nv))], []
        for d in self.c.robot.distances():
            if d.min_distance < self.trigger:
                v = np.array(d.pointB) - np.array(d.pointA)
                n = v / np.linalg.norm(v) * (-1 if d.min_distance < 0 else 1)
                A.append((n @ (self.point_J(q, d.parentB, np.array(d.pointB)) - self.point_J(q, d.parentA, np.array(d.pointA)))).reshape(1, -1))
                b.append(d.min_distance - self.margin)
        return np.vstack(A), np.array(b)

    def value(self, q):
        return min([d.min_distance for d in self.c.robot.distances()] + [1e3]) - self.margin

    def ok(self, q):
        return all(abs(d.min_distance) > 1e-4 and abs(d.min_distance - self.trigger) > 1e-9 for d in self.c.robot.distances())


CON_KINDS = ["com-polygon", "cone", "yaw", "distance-max", "half-spaces"]


def gen_con(g, c, q, dt, kinds=CON_KINDS, room=None):
    """A constraint that q satisfies with some room (or is outside of, when room < 0), and that the joints can affect."""
    kind = g.choice(kinds)
    for _ in range(5):
        t = gen_con1(g, c, q, dt, [kind], room)
        if t is not None and np.abs(t.rows(q)[0]).max(axis=1).min() > 0.02:
            return t
    return None


def gen_con1(g, c, q, dt, kinds, room):
    import qp
    kind = g.choice(kinds)
    room = g.weighted([(3, 0.05), (1, 0.0), (2, 0.3)]) * g.flt(0, 1, 0.1) if room is None else room
    a = g.choice(c.frames)
    b = g.choice([f for f in c.frames if f != a])
    if kind == "com-polygon":
        pts = qp.clockwise_polygon(g, scale=0.3)
        cen = np.mean(pts, axis=0)
        N, o = qp.polygon_rows(pts, 0.0)
        r = float(np.min(N @ cen + o))
        margin = g.flt(-0.2, 0.5) * r
        # put the CoM at distance `room` of an edge
        N, o = qp.polygon_rows(pts, margin)
        k = g.integer(0, len(pts) - 1)
        d = float(N[k] @ cen + o[k])
        p = cen - N[k] * max(0.0, d - room) if room >= 0 else cen - N[k] * (d - room)
        sh = c.com(q)[:2] - p
        omega = g.flt(1, 10, 0.1) if dt > 0 and g.boolean(0.3) else None
        t = ComPolygon(c, [x + sh for x in pts], margin, omega, dt)
    elif kind == "cone":
        t = Cone(c, a, b, 1.0)
        t.amax = t.angle(q) + room
        if g.boolean(0.3):
            t.N = g.choice([2, 4, 12])
        if g.boolean(0.3):
            t.rng = g.flt(0.05, 1.5)
    elif kind == "yaw":
        t = Yaw(c, a, b, 1.0)
        t.amax = abs(t.yaw(q)) + room
    elif kind == "distance-max":
        t = DistanceMax(c, a, b, 1.0)
        t.dmax = float(np.linalg.norm(t.vec(q))) + room
    else:
        m = g.integer(4, 8) if g.boolean(0.3) else g.small(1, 3)
        A = np.hstack([g.gauss_mat(m, 7) * g.choice([0.0, 1.0]), g.gauss_mat(m, c.nv - 6)])
        t = HalfSpaces(c, A, A[:, 7:] @ q[7:] + room + np.array([g.flt(0, 0.3) for _ in range(m)]))
    if not t.ok(q) or (room >= 0 and t.value(q) < -1e-12):
        return None
    t.late = g.boolean(0.3)
    return t
