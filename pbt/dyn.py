"""Generated inverse dynamics scenes, and the QP a DynamicsSolver should solve, from pinocchio and numpy."""
import math

import numpy as np
import pinocchio as pin
import placo

import kin
import qp
import robots as rb
from engine import Discard

LWA, LOCAL = pin.LOCAL_WORLD_ALIGNED, pin.LOCAL


class DCtx(kin.Ctx):
    def motion(self, q, qd, qdd, f):
        """Pose, velocity (linear, angular) and classical acceleration (linear, angular) of a frame, in world axes."""
        m, d = self.m, self.d
        i = m.getFrameId(f)
        pin.forwardKinematics(m, d, q, qd, qdd)
        pin.updateFramePlacements(m, d)
        v = pin.getFrameVelocity(m, d, i, LWA)
        a = pin.getFrameClassicalAcceleration(m, d, i, LWA)
        return d.oMf[i].homogeneous.copy(), v.linear.copy(), v.angular.copy(), a.linear.copy(), a.angular.copy()

    def com_motion(self, q, qd, qdd):
        pin.centerOfMass(self.m, self.d, q, qd, qdd)
        return self.d.com[0].copy(), self.d.vcom[0].copy(), self.d.acom[0].copy()


class DTask:
    todo = True
    """One dynamics task: quantity(q, qd, qdd) gives (error, velocity, acceleration) of what is controlled, jac(q) its matrix."""
    kind, mask = None, None
    priority, weight = "soft", 1.0
    kp, kd = 1e3, -1.0
    torque = False

    def given(self, x, other):
        """Target given when the task is created: the right one, or another one that set() replaces afterwards."""
        self.todo = int(abs(float(np.sum(x))) * 1e6) % 2 == 1
        return other if self.todo else x

    def gain(self):
        return 2 * math.sqrt(self.kp) if self.kd < 0 else self.kd

    def parts(self):
        return [self]

    def _m(self, M, R=np.eye(3)):
        return M if self.mask is None else self.mask.apply(M, R)

    def local(self, q):
        return np.eye(3)

    def configure(self, h, name, first=False):
        if not first or self.priority != "soft" or self.weight != 1.0:  # otherwise left at its defaults
            h.configure(name, self.priority, self.weight)
        if h.kp != self.kp:
            h.kp = self.kp
        if h.kd != self.kd:
            h.kd = self.kd
        if self.mask is not None:
            self.mask.set(h.mask)

    def desired(self, q, qd):
        e, v, _ = self.quantity(q, qd, np.zeros(self.c.nv))
        return self.kp * e + self.gain() * (self.dtarget - v) + self.ddtarget

    def rows(self, q, qd):
        """A qdd = b"""
        _, _, bias = self.quantity(q, qd, np.zeros(self.c.nv))
        R = self.local(q)
        return np.atleast_2d(self._m(self.jac(q), R)), np.atleast_1d(self._m(self.desired(q, qd) - bias, R))

    def errors(self, q, qd):
        e, v, _ = self.quantity(q, qd, np.zeros(self.c.nv))
        R = self.local(q)
        return np.atleast_1d(self._m(e, R)), np.atleast_1d(self._m(self.dtarget - v, R))

    def describe(self):
        return f"{self.kind}[{self.priority} {self.weight:.3g} kp {self.kp:.3g} kd {self.kd:.3g}]" + (f"({self.mask})" if self.mask else "")


class Position(DTask):
    kind = "position"

    def __init__(self, c, f, target, dt, ddt):
        self.c, self.f, self.target, self.dtarget, self.ddtarget = c, f, target, dt, ddt

    def local(self, q):
        return self.c.T(q, self.f)[:3, :3].T

    def add(self, s):
        h = s.add_position_task(self.f, self.given(self.target, self.target + 1.0))
        return h

    def set(self, h):
        if self.todo:
            h.target_world = self.target
        self.todo = True
        h.dtarget_world, h.ddtarget_world = self.dtarget, self.ddtarget

    def quantity(self, q, qd, qdd):
        T, v, w, a, dw = self.c.motion(q, qd, qdd, self.f)
        return self.target - T[:3, 3], v, a

    def jac(self, q):
        return self.c.J(q, self.f)[:3]


class Orientation(DTask):
    kind = "orientation"

    def __init__(self, c, f, R, dt, ddt):
        self.c, self.f, self.R, self.dtarget, self.ddtarget = c, f, R, dt, ddt

    def local(self, q):
        return self.R.T

    def add(self, s):
        return s.add_orientation_task(self.f, self.given(self.R, np.eye(3)))

    def set(self, h):
        if self.todo:
            h.R_world_frame = self.R
        self.todo = True
        h.omega_world, h.domega_world = self.dtarget, self.ddtarget

    def quantity(self, q, qd, qdd):
        T, v, w, a, dw = self.c.motion(q, qd, qdd, self.f)
        return rb.log3(self.R @ T[:3, :3].T), w, dw

    def jac(self, q):
        return self.c.J(q, self.f)[3:]


class Frame(DTask):
    kind = "frame"

    def __init__(self, c, f, T, dt, ddt):
        self.c, self.f, self.Tt = c, f, T
        self.pos = Position(c, f, T[:3, 3].copy(), dt[:3], ddt[:3])
        self.ori = Orientation(c, f, T[:3, :3].copy(), dt[3:], ddt[3:])

    def parts(self):
        return [self.pos, self.ori]

    def add(self, s):
        return s.add_frame_task(self.f, self.given(self.Tt, np.eye(4)))

    def set(self, h):
        if self.todo:
            h.T_world_frame = self.Tt
        self.todo = True
        p, o = h.position(), h.orientation()
        p.dtarget_world, p.ddtarget_world = self.pos.dtarget, self.pos.ddtarget
        o.omega_world, o.domega_world = self.ori.dtarget, self.ori.ddtarget

    def configure(self, h, name, first=False):
        if not first or self.priority != "soft" or self.weight != 1.0 or self.weight2 != 1.0:
            h.configure(name, self.priority, self.weight, self.weight2)
        for p, x, w in ((self.pos, h.position(), self.weight), (self.ori, h.orientation(), self.weight2)):
            p.priority, p.weight, p.kp, p.kd = self.priority, w, self.kp, self.kd
            x.kp, x.kd = self.kp, self.kd
            if p.mask is not None:
                p.mask.set(x.mask)

    def sub(self, h):
        return [h.position(), h.orientation()]


class RelPosition(DTask):
    kind = "relative_position"

    def __init__(self, c, a, b, target, dt, ddt):
        self.c, self.a, self.b, self.target, self.dtarget, self.ddtarget = c, a, b, target, dt, ddt

    def add(self, s):
        return s.add_relative_position_task(self.a, self.b, self.given(self.target, self.target + 1.0))

    def set(self, h):
        if self.todo:
            h.target = self.target
        self.todo = True
        h.dtarget, h.ddtarget = self.dtarget, self.ddtarget

    def quantity(self, q, qd, qdd):
        Ta, va, wa, aa, dwa = self.c.motion(q, qd, qdd, self.a)
        Tb, vb, wb, ab, dwb = self.c.motion(q, qd, qdd, self.b)
        R = Ta[:3, :3].T
        r = Tb[:3, 3] - Ta[:3, 3]
        v = vb - va
        vel = R @ (v - np.cross(wa, r))
        acc = R @ (ab - aa - np.cross(dwa, r) - 2 * np.cross(wa, v) + np.cross(wa, np.cross(wa, r)))
        return self.target - R @ r, vel, acc

    def jac(self, q):
        Ta, Tb = self.c.T(q, self.a), self.c.T(q, self.b)
        Ja, Jb = self.c.J(q, self.a), self.c.J(q, self.b)
        return Ta[:3, :3].T @ (Jb[:3] - Ja[:3] + rb.skew(Tb[:3, 3] - Ta[:3, 3]) @ Ja[3:])


class RelOrientation(DTask):
    kind = "relative_orientation"

    def __init__(self, c, a, b, R, dt, ddt):
        self.c, self.a, self.b, self.R, self.dtarget, self.ddtarget = c, a, b, R, dt, ddt

    def add(self, s):
        return s.add_relative_orientation_task(self.a, self.b, self.given(self.R, np.eye(3)))

    def set(self, h):
        if self.todo:
            h.R_a_b = self.R
        self.todo = True
        h.omega_a_b, h.domega_a_b = self.dtarget, self.ddtarget

    def quantity(self, q, qd, qdd):
        Ta, va, wa, aa, dwa = self.c.motion(q, qd, qdd, self.a)
        Tb, vb, wb, ab, dwb = self.c.motion(q, qd, qdd, self.b)
        R = Ta[:3, :3].T
        return rb.log3(self.R @ (R @ Tb[:3, :3]).T), R @ (wb - wa), R @ (dwb - dwa - np.cross(wa, wb - wa))

    def jac(self, q):
        return self.c.T(q, self.a)[:3, :3].T @ (self.c.J(q, self.b)[3:] - self.c.J(q, self.a)[3:])


class RelFrame(Frame):
    kind = "relative_frame"

    def __init__(self, c, a, b, T, dt, ddt):
        self.c, self.a, self.b, self.Tt = c, a, b, T
        self.pos = RelPosition(c, a, b, T[:3, 3].copy(), dt[:3], ddt[:3])
        self.ori = RelOrientation(c, a, b, T[:3, :3].copy(), dt[3:], ddt[3:])

    def add(self, s):
        return s.add_relative_frame_task(self.a, self.b, self.given(self.Tt, np.eye(4)))

    def set(self, h):
        if self.todo:
            h.T_a_b = self.Tt
        self.todo = True
        p, o = h.position(), h.orientation()
        p.dtarget, p.ddtarget = self.pos.dtarget, self.pos.ddtarget
        o.omega_a_b, o.domega_a_b = self.ori.dtarget, self.ori.ddtarget


class CoM(DTask):
    kind = "com"

    def __init__(self, c, target, dt, ddt):
        self.c, self.target, self.dtarget, self.ddtarget = c, target, dt, ddt

    def add(self, s):
        return s.add_com_task(self.given(self.target, self.target + 1.0))

    def set(self, h):
        if self.todo:
            h.target_world = self.target
        self.todo = True
        h.dtarget_world, h.ddtarget_world = self.dtarget, self.ddtarget

    def quantity(self, q, qd, qdd):
        p, v, a = self.c.com_motion(q, qd, qdd)
        return self.target - p, v, a

    def jac(self, q):
        return self.c.Jcom(q)


class Joints(DTask):
    kind = "joints"

    def __init__(self, c, names, target, dt, ddt, full):
        self.c, self.names, self.target, self.full = c, names, target, full
        self.dtarget = dt
        self.ddtarget = ddt

    def add(self, s):
        return s.add_joints_task()

    def set(self, h):
        if self.full:
            for k, n in enumerate(self.names):
                h.set_joint(n, self.target[k], self.dtarget[k], self.ddtarget[k])
        else:
            h.set_joints({n: float(self.target[k]) for k, n in enumerate(self.names)})
            h.set_joints_velocities({n: float(self.dtarget[k]) for k, n in enumerate(self.names)})
            self.ddtarget = np.zeros(len(self.names))

    def quantity(self, q, qd, qdd):
        iq, iv = [self.c.iq[n] for n in self.names], [self.c.iv[n] for n in self.names]
        return self.target - q[iq], qd[iv], qdd[iv]

    def jac(self, q):
        return np.eye(self.c.nv)[[self.c.iv[n] for n in self.names]]


class Gear(DTask):
    """joint = sum ratio * source: the difference is driven to zero."""
    kind = "gear"

    def __init__(self, c, gears):
        self.c, self.gears = c, gears
        self.dtarget = self.ddtarget = np.zeros(len(gears))

    def add(self, s):
        return s.add_gear_task()

    def set(self, h):
        for t, src in self.gears.items():
            for k, (n, r) in enumerate(src.items()):
                (h.set_gear if k == 0 else h.add_gear)(t, n, r)

    def _x(self, x, idx):
        return np.array([sum(r * x[idx[n]] for n, r in src.items()) - x[idx[t]] for t, src in self.gears.items()])

    def quantity(self, q, qd, qdd):
        return -self._x(q, self.c.iq), self._x(qd, self.c.iv), self._x(qdd, self.c.iv)

    def jac(self, q):
        return np.array([self._x(e, self.c.iv) for e in np.eye(self.c.nv)]).T


class Torque(DTask):
    kind = "torque"
    torque = True

    def __init__(self, c, t):
        self.c, self.t = c, t  # joint -> (torque, kp, kd)

    def add(self, s):
        return s.add_torque_task()

    def set(self, h):
        for n, (t, kp, kd) in self.t.items():
            h.set_torque(n, t, kp, kd)

    def configure(self, h, name, first=False):
        if not first or self.priority != "soft" or self.weight != 1.0:
            h.configure(name, self.priority, self.weight)

    def rows(self, q, qd):
        """A tau = b"""
        A = np.eye(self.c.nv)[[self.c.iv[n] for n in self.t]]
        b = np.array([t - kp * q[self.c.iq[n]] - kd * qd[self.c.iv[n]] for n, (t, kp, kd) in self.t.items()])
        return A, b


TASKS = ["joints", "position", "orientation", "frame", "relative_position", "relative_orientation", "relative_frame", "com", "gear", "torque"]


def read_back(t, h):
    """[(what, value read on the task, value given)]"""
    k = t.kind
    if k in ("position", "com"):
        return [("target_world", h.target_world, t.target)]
    if k == "relative_position":
        return [("target", h.target, t.target)]
    if k == "orientation":
        return [("R_world_frame", h.R_world_frame, t.R)]
    if k == "relative_orientation":
        return [("R_a_b", h.R_a_b, t.R)]
    if k == "frame":
        return [("T_world_frame", h.T_world_frame, t.Tt)]
    if k == "relative_frame":
        return [("T_a_b", h.T_a_b, t.Tt)]
    if k == "joints":
        return [(n, h.get_joint(n), t.target[i]) for i, n in enumerate(t.names)]
    return []


def gen_task(g, c, q, qd, kinds=TASKS, spread=0.2, masks=True):
    kind = g.choice(kinds)
    goal = rb.integ(c.m, q, g.gauss_vec(c.nv) * g.choice([spread, 0.0]))
    if g.boolean(0.07):
        goal[:3] += g.vec(3, -8, 8)  # far away
    ff = g.boolean(0.5)

    def deriv(n):
        return (g.gauss_vec(n) * 0.5, g.gauss_vec(n)) if ff else (np.zeros(n), np.zeros(n))
    f = g.choice(c.frames)
    a = g.choice(c.frames)
    b = g.choice([x for x in c.frames if x != a])
    Tab = rb.inv(c.T(goal, a)) @ c.T(goal, b)
    if kind == "position":
        t = Position(c, f, c.T(goal, f)[:3, 3], *deriv(3))
    elif kind == "orientation":
        t = Orientation(c, f, c.T(goal, f)[:3, :3], *deriv(3))
    elif kind == "frame":
        t = Frame(c, f, c.T(goal, f), *deriv(6))
    elif kind == "relative_position":
        t = RelPosition(c, a, b, Tab[:3, 3], *deriv(3))
    elif kind == "relative_orientation":
        t = RelOrientation(c, a, b, Tab[:3, :3], *deriv(3))
    elif kind == "relative_frame":
        t = RelFrame(c, a, b, Tab, *deriv(6))
    elif kind == "com":
        t = CoM(c, c.com(goal), *deriv(3))
    elif kind == "joints":
        n = g.subset(c.names, 0.6) or [g.choice(c.names)]
        n = sorted(n)
        t = Joints(c, n, np.array([goal[c.iq[x]] for x in n]), *deriv(len(n)), g.boolean())
        if not t.full:
            t.ddtarget = np.zeros(len(n))
    elif kind == "gear":
        if len(c.names) < 2:
            return gen_task(g, c, q, qd, ["joints"], spread, masks)
        order = g.shuffle(c.names)
        gears = {}
        for x in sorted(order[:g.small(1, min(2, len(order) - 1))], key=lambda x: c.iv[x]):
            src = [y for y in order if y != x and y not in gears]
            gears[x] = {y: g.flt(-2, 2, 0.2) for y in src[:g.small(1, min(4, len(src)))]}
        t = Gear(c, gears)
    else:
        n = sorted(g.subset(c.names, 0.3) or [g.choice(c.names)])
        t = Torque(c, {x: (g.flt(-2, 2), g.choice([0.0, 1.0]) * g.flt(0, 5), g.choice([0.0, 1.0]) * g.flt(0, 2)) for x in n})
    if masks:
        for p in t.parts():
            if p.kind in ("position", "orientation", "com", "relative_position", "relative_orientation"):
                p.mask = kin.gen_mask(g, local=p.kind in ("position", "orientation"))
    t.kp = g.choice([1e3, 1.0, 1e3, 0.0, 1e4]) if g.boolean(0.4) else g.pos(1, 1000)
    t.kd = -1.0 if g.boolean(0.5) else g.choice([0.0, 1.0]) * g.pos(0.1, 50)
    t.weight = 1.0 if g.boolean(0.2) else g.pos(0.05, 20)
    t.weight2 = t.weight if t.weight == 1.0 and g.boolean() else g.pos(0.05, 20)
    sync(t)
    return t


def sync(t):
    """The parts of frame tasks follow their configuration."""
    if t.parts() != [t]:
        for p, w in zip(t.parts(), (t.weight, t.weight2)):
            p.priority, p.weight, p.kp, p.kd = t.priority, w, t.kp, t.kd


# ----------------------------------------------------------------------------------------------
class DContact:
    active = True
    mu, weight_forces, weight_tangentials, weight_moments = 1.0, 0.0, 0.0, 0.0
    task = None

    def set(self, h):
        h.active = self.active
        h.mu, h.weight_forces, h.weight_tangentials, h.weight_moments = self.mu, self.weight_forces, self.weight_tangentials, self.weight_moments

    def describe(self):
        return f"{self.kind}{'' if self.active else ' (inactive)'}[mu {self.mu:.3g} wf {self.weight_forces:.3g} wt {self.weight_tangentials:.3g} wm {self.weight_moments:.3g}]"

    def friction(self, F):
        """Rows >= 0 on the contact variables, F selecting (fx, fy, fz) in surface axes."""
        return [F[2], self.mu * F[2] - F[0], self.mu * F[2] + F[0], self.mu * F[2] - F[1], self.mu * F[2] + F[1]]

    def rows(self):
        return []

    def costs(self):
        """(matrix, weight)"""
        return []


class PointContact(DContact):
    def __init__(self, task, unilateral, R):
        self.task, self.unilateral, self.R = task, unilateral, R
        self.kind = "unilateral-point" if unilateral else "point"

    def add(self, s, handles):
        t = handles[id(self.task)]
        return (s.add_unilateral_point_contact if self.unilateral else s.add_point_contact)(t)

    def set(self, h):
        super().set(h)
        h.R_world_surface = self.R

    def J(self, q, qd):
        return self.task.c.J(q, self.task.f)[:3]

    def rows(self):
        return self.friction(self.R.T) if self.unilateral else []

    def costs(self):
        return [(np.eye(3), self.weight_forces), (self.R.T[:2], self.weight_tangentials)]


class Contact6D(DContact):
    def __init__(self, task, unilateral, length, width):
        self.task, self.unilateral, self.length, self.width = task, unilateral, length, width
        self.kind = "planar" if unilateral else "fixed"

    def add(self, s, handles):
        t = handles[id(self.task)]
        return (s.add_planar_contact if self.unilateral else s.add_fixed_contact)(t)

    def set(self, h):
        super().set(h)
        h.length, h.width = self.length, self.width

    def J(self, q, qd):
        return self.task.c.J(q, self.task.f, LOCAL)

    def rows(self):
        if not self.unilateral:
            return []
        I = np.eye(6)
        l, w = 0.5 * self.length, 0.5 * self.width
        return self.friction(I[:3]) + [l * I[2] - I[4], l * I[2] + I[4], w * I[2] - I[3], w * I[2] + I[3]]

    def costs(self):
        I = np.eye(6)
        return [(I[:3], self.weight_forces), (I[:2], self.weight_tangentials), (I[3:], self.weight_moments)]


class LineContact(DContact):
    """Forces in world axes, then the two moments of the orientation mask (y and z)."""

    def __init__(self, task, unilateral, length, R):
        self.task, self.unilateral, self.length, self.R = task, unilateral, length, R
        self.kind = "unilateral-line" if unilateral else "line"

    def add(self, s, handles):
        t = handles[id(self.task)]
        return (s.add_unilateral_line_contact if self.unilateral else s.add_line_contact)(t)

    def set(self, h):
        super().set(h)
        h.length, h.R_world_surface = self.length, self.R

    def J(self, q, qd):
        J = self.task.c.J(q, self.task.f)
        return np.vstack([J[:3], self.task.ori._m(J[3:], self.task.ori.local(q))])

    def rows(self):
        if not self.unilateral:
            return []
        F = np.hstack([self.R.T, np.zeros((3, 2))])
        m = np.eye(5)[3]
        l = 0.5 * self.length
        return self.friction(F) + [l * F[2] - m, l * F[2] + m]

    def costs(self):
        F = np.hstack([self.R.T, np.zeros((3, 2))])
        return [(F, self.weight_forces), (F[:2], self.weight_tangentials), (np.eye(5)[3:], self.weight_moments)]


class WrenchContact(DContact):
    kind = "wrench"

    def __init__(self, c, f, ref, w):
        self.c, self.f, self.ref, self.w = c, f, ref, w

    def add(self, s, handles):
        return s.add_external_wrench_contact(self.f, self.ref)

    def set(self, h):
        super().set(h)
        h.w_ext = self.w

    def J(self, q, qd):
        return self.c.J(q, self.f, LWA if self.ref == "world" else LOCAL)


class PuppetContact(DContact):
    kind = "puppet"

    def __init__(self, c):
        self.c = c

    def add(self, s, handles):
        return s.add_puppet_contact()

    def J(self, q, qd):
        return np.eye(self.c.nv)

    def costs(self):
        return [(np.eye(self.c.nv), self.weight_forces)]


class TaskContact(DContact):
    kind = "task"

    def __init__(self, task, part=None):
        self.task = task

    def add(self, s, handles):
        return s.add_task_contact(handles[id(self.task)])

    def J(self, q, qd):
        return self.task.rows(q, qd)[0]

    def costs(self):
        return [(np.eye(self.n), self.weight_forces)]


CONTACTS = ["unilateral-point", "point", "planar", "fixed", "line", "unilateral-line", "wrench", "puppet", "task"]


def gen_contact(g, sc, kinds=CONTACTS):
    """A contact and the task it goes with (or None)."""
    c, q, qd = sc.c, sc.q, sc.qd
    kind = g.choice(kinds)
    R = np.eye(3) if g.boolean(0.5) else g.rotation(0.6)
    task = None
    if kind in ("unilateral-point", "point"):
        task = gen_task(g, c, q, qd, ["position"], masks=False)
        k = PointContact(task, kind != "point", R)
    elif kind in ("planar", "fixed"):
        task = gen_task(g, c, q, qd, ["frame"], masks=False)
        k = Contact6D(task, kind == "planar", g.flt(0.02, 0.3, 0.1), g.flt(0.02, 0.3, 0.1))
    elif kind in ("line", "unilateral-line"):
        task = gen_task(g, c, q, qd, ["frame"], masks=False)
        task.ori.mask = kin.Mask("yz", g.choice(["local", "task", "custom"]), g.rotation())
        k = LineContact(task, kind != "line", g.flt(0.02, 0.3, 0.1), R)
    elif kind == "wrench":
        k = WrenchContact(c, g.choice(c.frames), g.choice(["world", "local"]), g.vec(6, -5, 5) * g.choice([1.0] * 8 + [0.0, 100.0]))
    elif kind == "puppet":
        k = PuppetContact(c)
    else:
        task = gen_task(g, c, q, qd, ["position", "relative_position", "relative_orientation", "joints", "gear", "com", "orientation"])
        k = TaskContact(task)
        k.n = task.rows(q, qd)[0].shape[0]
    if task is not None:
        task.priority = "hard" if g.boolean(0.4) else "soft"
        task.kp = g.pos(1, 100)
        sync(task)
    k.mu = g.pos(0.1, 2) if g.boolean(0.85) else g.pos(0.01, 0.1)
    if g.boolean(0.4):
        k.weight_forces = g.pos(1e-4, 1)
    if g.boolean(0.3):
        k.weight_tangentials = g.pos(1e-4, 1)
    if g.boolean(0.3):
        k.weight_moments = g.pos(1e-4, 1)
    if g.boolean(0.12):
        k.active = False
    return k, task


class SelfCollisions:
    """Pairs closer than the trigger: beyond the margin their approach is limited to what can still be braked, within it
    they are pushed apart. Distances and closest points are those reported by the robot (their truth is P15)."""
    kind = "self-collisions"
    priority, weight = "hard", 1.0

    def __init__(self, c, margin, trigger):
        self.c, self.margin, self.trigger = c, margin, trigger

    def add(self, s):
        h = s.add_avoid_self_collisions_constraint()
        h.self_collisions_margin, h.self_collisions_trigger = self.margin, self.trigger
        h.configure("avoid", self.priority, self.weight)
        return h

    def near(self):
        return [d for d in self.c.robot.distances() if d.min_distance < self.trigger]

    def ok(self):
        return all(abs(d.min_distance) > 1e-4 and abs(d.min_distance - self.trigger) > 1e-9 and abs(d.min_distance - self.margin) > 1e-6 for d in self.c.robot.distances())

    def rows(self, sc):
        c = self.c
        pin.computeJointJacobiansTimeVariation(c.m, c.d, sc.q, sc.qd)
        A, b = [np.zeros((0, c.nv))], []
        for d in self.near():
            pA, pB = np.array(d.pointA), np.array(d.pointB)
            n = (pB - pA) / np.linalg.norm(pB - pA) * (-1 if d.min_distance < 0 else 1)

            def point(M, p):
                return M[:3] - rb.skew(p) @ M[3:]
            J = n @ (point(pin.getJointJacobian(c.m, c.d, d.parentB, pin.WORLD), pB) - point(pin.getJointJacobian(c.m, c.d, d.parentA, pin.WORLD), pA))
            dJ = n @ (point(pin.getJointJacobianTimeVariation(c.m, c.d, d.parentB, pin.WORLD), pB) - point(pin.getJointJacobianTimeVariation(c.m, c.d, d.parentA, pin.WORLD), pA))
            safe = np.array([0.0] * 6 + [1.0] * (c.nv - 6))
            for j, v in sc.qdd_safe.items():
                safe[c.iv[j]] = v
            a = 0.5 * float(np.abs(J) @ safe)
            if d.min_distance >= self.margin:
                A.append(sc.dt * J[None, :])
                b.append(float(J @ sc.qd) + sc.dt * float(dJ @ sc.qd) + math.sqrt(2 * (d.min_distance - self.margin) * a))
            else:
                A.append(J[None, :])
                b.append(-a)
        return np.vstack(A), np.array(b)


class DScene:
    def __init__(self):
        self.tasks, self.contacts, self.cons = [], [], []
        self.mask_base = False
        self.dt, self.damping, self.gravity_only, self.extra, self.torque_cost = 0.0, 0.0, False, None, 1e-3
        self.torque_limits = self.velocity_limits = self.vs_torque = self.joint_limits = False
        self.qdd_safe, self.overrides = {}, {}
        self.reg0 = None

    def options(self, s):
        s.mask_fbase(self.mask_base)
        s.dt, s.damping, s.gravity_only, s.torque_cost = self.dt, self.damping, self.gravity_only, self.torque_cost
        if self.extra is not None:
            s.extra_force = self.extra
        s.enable_torque_limits(self.torque_limits)
        s.enable_velocity_limits(self.velocity_limits)
        s.enable_velocity_vs_torque_limits(self.vs_torque)
        s.enable_joint_limits(self.joint_limits)
        for j, v in self.qdd_safe.items():
            s.set_qdd_safe(j, v)
        for j, v in self.overrides.items():
            s.set_torque_limit(j, v)
        if self.reg0 is not None:
            s.problem.regularization = self.reg0

    def build(self):
        s = placo.DynamicsSolver(self.c.robot)
        self.handles = {}
        for n, t in enumerate(self.tasks):
            h = t.add(s)
            t.configure(h, f"task{n}", True)
            t.set(h)
            self.handles[id(t)] = h
        for k in self.contacts:
            h = k.add(s, self.handles)
            k.set(h)
            self.handles[id(k)] = h
        for k in self.cons:
            self.handles[id(k)] = k.add(s)
        self.options(s)
        return s

    # ---- the mechanics
    def rotor(self):
        m = self.c.m
        r = np.zeros(m.nv)
        for n in self.c.names:
            i = self.c.iv[n]
            r[i] = float(m.rotorInertia[i]) * float(m.rotorGearRatio[i]) ** 2
        return r

    def mass(self):
        M = pin.crba(self.c.m, self.c.d, self.q)
        M = np.triu(M) + np.triu(M, 1).T
        return M + np.diag(self.rotor())

    def bias(self):
        c = self.c
        z = np.zeros(c.nv)
        h = pin.rnea(c.m, c.d, self.q, z if self.gravity_only else self.qd, z)
        h = h + self.damping * self.qd
        return h if self.extra is None else h + self.extra

    def live(self):
        return [k for k in self.contacts if k.active]

    def limit_rows(self, x, T, t0):
        """(name, joint, row on x, offset) with row x + offset >= 0."""
        c, m = self.c, self.c.m
        n = T.shape[1]
        out = []
        for j in c.names:
            i, iq = c.iv[j], c.iq[j]
            e = np.zeros(n)
            e[i] = 1
            v = self.qd[i]
            vm, tm = float(m.velocityLimit[i]), float(m.effortLimit[i])
            if self.torque_limits:
                lim = self.overrides.get(j, tm)
                out.append(("torque-limit", j, -T[i], lim - t0[i]))
                out.append(("torque-limit", j, T[i], lim + t0[i]))
            if self.vs_torque:
                r = vm / tm
                out.append(("velocity-vs-torque", j, -r * T[i] - self.dt * e, vm - v - r * t0[i]))
                out.append(("velocity-vs-torque", j, r * T[i] + self.dt * e, vm + v + r * t0[i]))
            elif self.velocity_limits:
                out.append(("velocity-limit", j, -self.dt * e, vm - v))
                out.append(("velocity-limit", j, self.dt * e, vm + v))
            if self.joint_limits:
                a = self.qdd_safe.get(j, 1.0)
                lo, up = float(m.lowerPositionLimit[iq]), float(m.upperPositionLimit[iq])
                p = self.q[iq]
                if p > up:
                    out.append(("joint-limit-out", j, -e, -a))
                else:
                    out.append(("joint-limit", j, -self.dt * e, math.sqrt(2 * a * (up - p)) - v))
                if p < lo:
                    out.append(("joint-limit-out", j, e, -a))
                else:
                    out.append(("joint-limit", j, self.dt * e, math.sqrt(2 * a * (p - lo)) + v))
        return out

    def spec(self):
        c, q, qd = self.c, self.q, self.qd
        Js = [k.J(q, qd) for k in self.live()]
        sp = qp.Spec()
        sp.sizes = [c.nv] + [J.shape[0] for J in Js]
        n = sum(sp.sizes)
        T = np.hstack([self.mass()] + [-J.T for J in Js])
        t0 = self.bias()
        self.T, self.t0 = T, t0

        def pad(A, off=0):
            M = np.zeros((A.shape[0], n))
            M[:, off:off + A.shape[1]] = A
            return M
        if self.mask_base:
            sp.cons.append(qp.Con("eq", np.eye(n)[:6], np.zeros(6), form="masked-base"))
        else:
            sp.cons.append(qp.Con("eq", T[:6], t0[:6], form="base-torque"))
        for t in self.tasks:
            for p in t.parts():
                A, b = p.rows(q, qd)
                if p.torque:
                    sp.cons.append(qp.Con("eq", A @ T, A @ t0 - b, p.priority, p.weight, p.kind))
                else:
                    sp.cons.append(qp.Con("eq", pad(A), -b, p.priority, p.weight, p.kind))
        if len(c.names):
            sp.cons.append(qp.Con("eq", T[6:], t0[6:], "soft", self.torque_cost, "torque-cost"))
        off = c.nv
        for k, J in zip(self.live(), Js):
            for r in k.rows():
                sp.cons.append(qp.Con("ineq", pad(r[None, :], off), np.zeros(1), form=k.kind))
            for A, w in k.costs():
                if w > 0:
                    sp.cons.append(qp.Con("eq", pad(A, off), np.zeros(A.shape[0]), "soft", w, k.kind + "-cost"))
            if k.kind == "wrench":
                sp.cons.append(qp.Con("eq", pad(np.eye(6), off), -k.w, form="wrench"))
            off += J.shape[0]
        for k in self.cons:
            A, b = k.rows(self)
            if len(b):
                sp.cons.append(qp.Con("ineq", pad(A), b, k.priority, k.weight, k.kind))
        for name, j, r, o in self.limit_rows(None, T, t0):
            sp.cons.append(qp.Con("ineq", r[None, :], np.array([o]), form=name))
        return sp

    def x(self, res):
        """The decision variables, from the result."""
        return np.concatenate([np.array(res.qdd).reshape(-1)] + [np.array(self.handles[id(k)].wrench).reshape(-1) for k in self.live()])

    def describe(self):
        return {"tasks": [t.describe() for t in self.tasks], "contacts": [k.describe() for k in self.contacts], "masked base": self.mask_base, "dt": self.dt, "damping": self.damping,
                "gravity only": self.gravity_only, "extra force": self.extra is not None, "limits": [n for n, f in (("torque", self.torque_limits), ("velocity", self.velocity_limits), ("velocity vs torque", self.vs_torque), ("joint", self.joint_limits)) if f]}


def gen_scene(g, n_tasks=3, kinds=TASKS, contacts=CONTACTS, n_contacts=3, limits=True, hard=0.35, outside=0.0, robot=None):
    sc = DScene()
    r, spec, kind = robot or rb.pick(g, w_random=12, min_joints=2, max_joints=7)
    g.cls(kind)
    c = sc.c = DCtx(r)
    for j in c.names:
        if g.boolean(0.3):
            r.set_torque_limit(j, g.pos(1, 60))
        if g.boolean(0.3):
            r.set_velocity_limit(j, g.pos(0.5, 20))
        if g.boolean(0.2):
            r.set_rotor_inertia(j, g.pos(1e-5, 1e-2))
            r.set_gear_ratio(j, g.flt(1, 10, 0.1) * g.choice([1.0, -1.0]))
        if float(c.m.effortLimit[c.iv[j]]) < 1e-3 or float(c.m.effortLimit[c.iv[j]]) > 1e6:
            r.set_torque_limit(j, 20.0)
        if float(c.m.velocityLimit[c.iv[j]]) < 1e-3 or float(c.m.velocityLimit[c.iv[j]]) > 1e6:
            r.set_velocity_limit(j, 10.0)
        lo, up = (float(v) for v in r.get_joint_limits(j))
        if lo < -rb.BIG or up > rb.BIG or up - lo < 1e-3:
            r.set_joint_limits(j, -2.0, 2.0)
    if g.boolean(0.2):
        r.set_gravity(g.vec(3, -10, 10))
    sc.q = rb.gen_q(g, r, shrink=0.05)
    sc.qd = g.gauss_vec(c.nv) * g.choice([0.0, 0.3, 1.0, 0.3, 0.05, 1.0, 8.0])
    if outside:
        for j in c.names:
            if g.boolean(outside):
                lo, up = (float(v) for v in r.get_joint_limits(j))
                over = 0.0 if g.boolean(0.2) else g.pos(1e-3, 0.3)  # exactly at the limit, or beyond
                sc.q[c.iq[j]] = up + over if g.boolean() else lo - over
    rb.set_q(r, sc.q, sc.qd)
    sc.mask_base = g.boolean(0.3)
    sc.dt = g.choice([0.0, 0.005, 0.02, 0.1, 0.001])
    if g.boolean(0.2):
        sc.damping = g.pos(1e-3, 1) if g.boolean(0.7) else g.pos(1, 50)
    sc.gravity_only = g.boolean(0.15)
    if g.boolean(0.2):
        sc.extra = g.vec(c.nv, -2, 2)
    if g.boolean(0.3):
        sc.torque_cost = g.pos(1e-4, 1e-1) if g.boolean(0.8) else g.pos(1e-7, 1e-4)
    if limits:
        if sc.dt > 0:
            sc.velocity_limits, sc.joint_limits, sc.vs_torque = g.boolean(0.3), g.boolean(0.3), g.boolean(0.15)
        sc.torque_limits = g.boolean(0.3)
        for j in c.names:
            if g.boolean(0.3):
                sc.qdd_safe[j] = g.pos(0.1, 50) if g.boolean(0.8) else g.pos(0.01, 0.1)
            if g.boolean(0.15):
                sc.overrides[j] = g.pos(0.5, 50) if g.boolean(0.8) else g.pos(0.01, 0.5)
    sc.reg0 = g.choice([None, 1e-5, 1e-4])
    for _ in range(g.integer(0, n_contacts if n_contacts < 2 or g.boolean(0.9) else n_contacts + 3)):
        k, t = gen_contact(g, sc, contacts)
        if t is not None:
            sc.tasks.append(t)
        sc.contacts.append(k)
    for _ in range(g.integer(0 if sc.tasks else 1, n_tasks)):
        t = gen_task(g, c, sc.q, sc.qd, kinds)
        t.priority = "hard" if g.boolean(hard) else "soft"
        sync(t)
        sc.tasks.append(t)
    return sc


def degenerate(sc):
    for t in sc.tasks:
        for p in t.parts():
            if p.kind == "orientation" and np.trace(p.R @ sc.c.T(sc.q, p.f)[:3, :3].T) < -0.9:
                return True
            if p.kind == "relative_orientation" and np.trace(p.R @ (sc.c.T(sc.q, p.a)[:3, :3].T @ sc.c.T(sc.q, p.b)[:3, :3]).T) < -0.9:
                return True
    return False


def domain(sc, need_witness=True, room=1e-3):
    """The QP of the scene, when it is well conditioned and feasible with some room; Discard otherwise."""
    if degenerate(sc):
        raise Discard
    sp = sc.spec()
    defi, cond = kin.eq_conditioning(sp)
    if defi or cond < 1e-4:
        raise Discard
    if need_witness and any(k.kind == "ineq" for k in sp.cons) and kin.witness(sp, room, bound=1e4) is None:
        raise Discard
    reg0 = 1e-8 if sc.reg0 is None else sc.reg0
    sc.acc = kin.solver_tolerance(sp, reg0)
    if sc.acc > 1e-6:
        raise Discard
    return sp, reg0


def solved(g, refine=None, **kw):
    """A generated scene in the domain, solved: scene, QP, solver, result, decision variables."""
    from engine import check
    sc = gen_scene(g, **kw)
    if refine:
        refine(sc)
    sp, reg0 = domain(sc)
    g.note(**sc.describe())
    g.note(q=sc.q, qd=sc.qd)
    s = sc.build()
    res = s.solve()
    check("refused", res.success, "the solve fails although the problem is feasible with room")
    return sc, sp, reg0, s, res, sc.x(res)
