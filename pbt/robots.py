"""Random robots (kinematic trees written as URDF), their own forward kinematics, and real robots."""
import math
import os
import sys

import numpy as np
import pinocchio as pin
import placo

from engine import rot

SIGMABAN = "/repo/python/tests/sigmaban/"
QUADRUPED = "/repo/python/tests/quadruped/"
COLL_AS_VISUAL, IGNORE_COLL, MJCF = 1, 2, 4
BIG = 1e300


def rpy(r, p, y):
    return rot([0, 0, 1], y) @ rot([0, 1, 0], p) @ rot([1, 0, 0], r)


def quat_to_R(q):
    x, y, z, w = q
    n = math.sqrt(x * x + y * y + z * z + w * w)
    x, y, z, w = x / n, y / n, z / n, w / n
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def R_to_quat(R):
    q = pin.Quaternion(np.array(R, float))
    return np.array([q.x, q.y, q.z, q.w])


def T_of(R=None, p=None):
    T = np.eye(4)
    if R is not None:
        T[:3, :3] = R
    if p is not None:
        T[:3, 3] = p
    return T


def inv(T):
    R = T[:3, :3].T
    return T_of(R, -R @ T[:3, 3])


def skew(v):
    return np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])


def log3(R):
    return pin.log3(np.array(R, float))


class JointSpec:
    def __init__(self, name, kind, parent, child, xyz, rpy_, axis, lower, upper, velocity, effort):
        self.name, self.kind, self.parent, self.child = name, kind, parent, child
        self.xyz, self.rpy, self.axis = np.asarray(xyz, float), tuple(rpy_), np.asarray(axis, float)
        self.lower, self.upper, self.velocity, self.effort = lower, upper, velocity, effort

    def T(self):
        return T_of(rpy(*self.rpy), self.xyz)

    @property
    def limited(self):
        return not (self.lower == 0 and self.upper == 0)


class LinkSpec:
    def __init__(self, name, mass, com, inertia, geoms):
        self.name, self.mass, self.com, self.inertia, self.geoms = name, mass, com, inertia, geoms


class Geom:
    """kind: sphere (r), box (sx, sy, sz), cylinder (r, l)"""

    def __init__(self, kind, size, xyz, rpy_):
        self.kind, self.size, self.xyz, self.rpy = kind, size, np.asarray(xyz, float), tuple(rpy_)

    def T(self):
        return T_of(rpy(*self.rpy), self.xyz)


def s(x):
    return " ".join("%.17g" % v for v in np.atleast_1d(x))


class RobotSpec:
    def __init__(self):
        self.links = []
        self.joints = []

    def link(self, name):
        return next(l for l in self.links if l.name == name)

    def moving(self):
        return [j for j in self.joints if j.kind != "fixed"]

    def joint(self, name):
        return next(j for j in self.joints if j.name == name)

    def urdf(self):
        out = ['<robot name="generated">']
        for l in self.links:
            out.append(f'<link name="{l.name}"><inertial><origin xyz="{s(l.com)}" rpy="0 0 0"/><mass value="{s(l.mass)}"/>')
            I = l.inertia
            out.append(f'<inertia ixx="{s(I[0, 0])}" ixy="{s(I[0, 1])}" ixz="{s(I[0, 2])}" iyy="{s(I[1, 1])}" iyz="{s(I[1, 2])}" izz="{s(I[2, 2])}"/></inertial>')
            for tag in ("collision", "visual"):
                for ge in l.geoms:
                    if ge.kind == "sphere":
                        gs = f'<sphere radius="{s(ge.size[0])}"/>'
                    elif ge.kind == "box":
                        gs = f'<box size="{s(ge.size)}"/>'
                    else:
                        gs = f'<cylinder radius="{s(ge.size[0])}" length="{s(ge.size[1])}"/>'
                    out.append(f'<{tag}><origin xyz="{s(ge.xyz)}" rpy="{s(ge.rpy)}"/><geometry>{gs}</geometry></{tag}>')
            out.append('</link>')
        for j in self.joints:
            out.append(f'<joint name="{j.name}" type="{j.kind}"><parent link="{j.parent}"/><child link="{j.child}"/><origin xyz="{s(j.xyz)}" rpy="{s(j.rpy)}"/>')
            if j.kind != "fixed":
                out.append(f'<axis xyz="{s(j.axis)}"/><limit lower="{s(j.lower)}" upper="{s(j.upper)}" velocity="{s(j.velocity)}" effort="{s(j.effort)}"/>')
            out.append('</joint>')
        out.append('</robot>')
        return "\n".join(out)

    def fk(self, T_base, values):
        """World pose of every link, computed from the specification only."""
        T = {self.links[0].name: T_base}
        for j in self.joints:  # parents come first
            M = j.T()
            if j.kind == "revolute":
                M = M @ T_of(rot(j.axis, values[j.name]))
            elif j.kind == "prismatic":
                M = M @ T_of(None, j.axis / np.linalg.norm(j.axis) * values[j.name])
            T[j.child] = T[j.parent] @ M
        return T

    def ancestors(self, link):
        """Moving joints between the root and the link."""
        up = {j.child: j for j in self.joints}
        out = []
        while link in up:
            j = up[link]
            if j.kind != "fixed":
                out.append(j.name)
            link = j.parent
        return out

    def describe(self):
        return {"links": len(self.links), "joints": [f"{j.name}:{j.kind[:3]}:{j.parent}->{j.child}" for j in self.joints]}


def gen_geom(g, size=0.08):
    kind = g.choice(["sphere", "box", "cylinder"])
    k = [g.flt(0.25 * size, size, 0.05) for _ in range({"sphere": 1, "box": 3, "cylinder": 2}[kind])]
    return Geom(kind, k, g.vec(3, -0.05, 0.05), [g.flt(-3, 3, 0.3) for _ in range(3)])


def gen_inertia(g, mass):
    P = g.gauss_mat(6, 3, 0.1) + 0.03 * np.vstack([np.eye(3), -np.eye(3)])
    P = P - P.mean(axis=0)
    I = sum(np.dot(p, p) * np.eye(3) - np.outer(p, p) for p in P) * mass / 6
    return I + 1e-4 * mass * np.eye(3)


def gen_robot(g, min_joints=1, max_joints=7, geoms=False, fixed=True, chain_bias=0.6, kinds=("revolute", "prismatic"), limited=0.8, reach=0.4, edge=False):
    """A random tree. Joint and link names are shuffled, so that name order, declaration order and tree order differ."""
    R = RobotSpec()
    n = g.small(min_joints, max_joints)
    if edge and g.boolean(0.06):
        n = g.integer(max_joints, 20)
    nfix = g.small(0, 2) if fixed else 0
    total = n + nfix
    flags = [True] * n + [False] * nfix
    flags = [flags[k] for k in g.shuffle(list(range(total)))] if nfix else flags
    # names: the numbering is shuffled so that alphabetical order is unrelated to the tree
    jn = g.shuffle([f"j{k}" for k in range(total)])
    ln = ["body"] + g.shuffle([f"l{k}" for k in range(total)])
    for k in range(total + 1):
        mass = g.pos(0.1, 3.0)
        R.links.append(LinkSpec(ln[k], mass, g.vec(3, -0.15, 0.15), gen_inertia(g, mass), [gen_geom(g) for _ in range(g.weighted([(6, 1), (2, 0), (1, 2)]))] if geoms else []))
    for k in range(total):
        par = k if g.boolean(chain_bias) else g.integer(0, k)
        kind = "fixed" if not flags[k] else ("revolute" if len(kinds) == 1 or g.boolean(0.85) else "prismatic")
        axis = np.eye(3)[g.integer(0, 2)] * g.choice([1, -1]) if g.boolean(0.5) else g.unit(3)
        lo = up = 0.0
        if g.boolean(limited):
            span = 1.0 if kind == "prismatic" else 2.5
            lo, up = -g.flt(0.1, span, 0.1), g.flt(0.1, span, 0.1)
            if edge and g.boolean(0.2):  # one side only, or both limits on the same side
                lo, up = g.choice([(0.0, up), (lo, 0.0), (0.5 * up, up), (lo, 0.5 * lo)])
        near = 0.04 if g.boolean(0.06) else 1.0
        R.joints.append(JointSpec(jn[k], kind, ln[par], ln[k + 1], g.vec(3, -reach, reach) * near, [g.flt(-3, 3, 0.4) for _ in range(3)], axis,
                                  lo, up, g.flt(0.5, 10, 0.1), g.flt(1, 40, 0.1)))
    return R


class quiet:
    """Silences what the C++ code prints on stderr."""

    def __enter__(self):
        sys.stderr.flush()
        self.saved = os.dup(2)
        d = os.open(os.devnull, os.O_WRONLY)
        os.dup2(d, 2)
        os.close(d)

    def __exit__(self, *a):
        os.dup2(self.saved, 2)
        os.close(self.saved)


def make(spec, flags=IGNORE_COLL):
    with quiet():
        return placo.RobotWrapper("", flags, spec.urdf())


def sigmaban(flags=IGNORE_COLL):
    with quiet():
        return placo.HumanoidRobot(SIGMABAN, flags)


def quadruped(flags=IGNORE_COLL):
    with quiet():
        return placo.RobotWrapper(QUADRUPED, flags | COLL_AS_VISUAL)


def pick(g, w_random=6, w_sig=1, w_quad=1, **kw):
    """(robot, spec or None, kind)"""
    k = g.weighted([(w_random, "random"), (w_quad, "quadruped"), (w_sig, "sigmaban")])
    if k == "random":
        sp = gen_robot(g, **kw)
        return make(sp), sp, k
    return (quadruped() if k == "quadruped" else sigmaban()), None, k


def limits(robot, name):
    lo, up = (float(v) for v in robot.get_joint_limits(name))
    return lo, up


def sane_limits(m, k, default=2.0):
    lo, up = float(m.lowerPositionLimit[k]), float(m.upperPositionLimit[k])
    if lo < -BIG or up > BIG or not math.isfinite(lo) or not math.isfinite(up):
        return -default, default
    return lo, up


def gen_q(g, robot, scale=1.0, shrink=0.02, base=True):
    """A configuration inside the joint limits: [base position, quaternion, joints]."""
    m = robot.model
    q = np.zeros(m.nq)
    q[6] = 1.0
    if base:
        q[:3] = g.vec(3, -1, 1)
        q[3:7] = R_to_quat(g.rotation())
    u = np.clip(g.gauss_vec(m.nq - 7, 0.5), -1, 1) * scale
    for k in range(7, m.nq):
        lo, up = sane_limits(m, k)
        mid, half = 0.5 * (lo + up), 0.5 * (up - lo) * (1 - shrink)
        # around 0 when possible, so that scale=0 is the neutral configuration
        c = min(max(0.0, lo + shrink * (up - lo)), up - shrink * (up - lo))
        t = u[k - 7]
        q[k] = c + t * ((mid + half - c) if t > 0 else (c - (mid - half)))
    return q


def set_q(robot, q, qd=None, qdd=None):
    robot.state.q = np.array(q, float)
    robot.state.qd = np.zeros(robot.model.nv) if qd is None else np.array(qd, float)
    robot.state.qdd = np.zeros(robot.model.nv) if qdd is None else np.array(qdd, float)
    robot.update_kinematics()


def values(spec, robot, q):
    """joint name -> value, through pinocchio's own index (not placo's accessors)."""
    m = robot.model
    return {j.name: float(q[m.joints[m.getJointId(j.name)].idx_q]) for j in spec.moving()}


def base_T(q):
    return T_of(quat_to_R(q[3:7]), q[:3])


def oracle_frames(robot, q):
    """World pose of all frames through pinocchio, with data of our own."""
    m = robot.model
    d = m.createData()
    pin.framesForwardKinematics(m, d, np.array(q, float))
    return {f.name: d.oMf[i].homogeneous.copy() for i, f in enumerate(m.frames)}


def frame_T(m, q, name, d=None):
    d = d or m.createData()
    pin.framesForwardKinematics(m, d, q)
    return d.oMf[m.getFrameId(name)].homogeneous.copy()


def body_frames(robot):
    return [f.name for f in robot.model.frames if f.name not in ("universe",)]


def integ(m, q, dq):
    return pin.integrate(m, np.array(q, float), np.array(dq, float))


def ndiff(f, h=1e-5):
    """Derivative at 0 of a (vector valued) function of one parameter: 4th order central difference."""
    return (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h)


def ndiff2(f, h=1e-3):
    """Second derivative at 0 (4th order)."""
    return (-f(2 * h) + 16 * f(h) - 30 * f(0.0) + 16 * f(-h) - f(-2 * h)) / (12 * h * h)


def rodot(Ra, Rb, h):
    return log3(Rb @ Ra.T) / h
