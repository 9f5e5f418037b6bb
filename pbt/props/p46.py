"""P46: humanoid support tracking and balance quantities are consistent."""
import math
import numpy as np
import pinocchio as pin
import placo
from engine import Facet, Violation, Discard, close, check, raises, rot
import robots as rb
from robots import T_of, inv
from walk import LEFT, RIGHT, other

RULE = "A case is a generated humanoid (or the Sigmaban one) with a history of support changes and placements, or a state whose balance quantities are compared with their definition."


def gen_humanoid(g):
    """A trunk (root link or not), two legs, feet with contact points, and maybe a neck and an arm."""
    R = rb.RobotSpec()

    def link(name, parent=None, joint=None, xyz=None, rpy=(0, 0, 0), axis=None):
        m = g.pos(0.05, 3.0)
        R.links.append(rb.LinkSpec(name, m, g.vec(3, -0.1, 0.1), rb.gen_inertia(g, m), []))
        if parent is not None:
            R.joints.append(rb.JointSpec(joint, "revolute" if axis is not None else "fixed", parent, name, xyz, rpy,
                                         np.array([0, 0, 1.0]) if axis is None else axis, -2.0, 2.0, 10.0, 50.0))
    root = "trunk"
    if g.boolean():
        link("base_link")
        link("trunk", "base_link", "trunk_fixing", g.vec(3, -0.2, 0.2), [g.flt(-1, 1) for _ in range(3)])
    else:
        link("trunk")
    legs = ["left", "right"] if g.boolean() else ["right", "left"]
    for side in legs:
        par = "trunk"
        s = 1 if side == "left" else -1
        for k in range(g.integer(2, 6)):
            name = f"{side}_link{k}"
            axis = np.eye(3)[g.integer(0, 2)] if g.boolean(0.7) else g.unit(3)
            link(name, par, f"{side}_j{k}", [g.flt(-0.1, 0.1), s * 0.1 if k == 0 else 0.0, -g.flt(0.02, 0.3)], [g.flt(-0.5, 0.5) for _ in range(3)] if g.boolean(0.3) else (0, 0, 0), axis)
            par = name
        link(f"{side}_foot", par, f"{side}_foot_fixing", g.vec(3, -0.05, 0.05), [g.flt(-1, 1) for _ in range(3)])
        for k in range(4):
            link(f"{side}_ps_{k}", f"{side}_foot", f"{side}_ps_fixing_{k}", g.vec(3, -0.05, 0.05), [g.flt(-0.3, 0.3) for _ in range(3)] if g.boolean(0.3) else (0, 0, 0))
    if g.boolean(0.4):
        link("arm", "trunk", "arm_joint", g.vec(3, -0.2, 0.2), (0, 0, 0), g.unit(3))
    with rb.quiet():
        return placo.HumanoidRobot("", rb.IGNORE_COLL, R.urdf())


def pick(g, ps=False):
    if ps or g.boolean(0.8):
        return gen_humanoid(g), "generated"
    return rb.sigmaban(), "sigmaban"


def pose_q(T, q):
    out = np.array(q, float)
    out[:3] = T[:3, 3]
    out[3:7] = rb.R_to_quat(T[:3, :3])
    return out


def f_support(g):
    r, kind = pick(g)
    m = r.model
    frames = {LEFT: "left_foot", RIGHT: "right_foot"}
    q = np.array(r.state.q, float)
    # the robot starts with its left foot at the origin, as a support
    side, frame, Tws = LEFT, "left_foot", np.eye(4)
    extra = {LEFT: ["left_foot"] + (["left_ps_1"] if kind == "generated" else ["left_foot_asm"]),
             RIGHT: ["right_foot"] + (["right_ps_2"] if kind == "generated" else ["right_foot_asm"])}

    def fk(q, name):
        return rb.frame_T(m, q, name)

    def place(q, T):
        """q moved as a whole so that the support frame is at T."""
        B = rb.base_T(q)
        return pose_q(T @ inv(fk(q, frame)) @ B, q)

    def verify(msg):
        got = np.array(r.state.q, float)
        close("joints-changed", got[7:], q[7:], atol=1e-12, msg=msg)
        close("base", rb.base_T(got), rb.base_T(q), atol=1e-8, msg=msg)
        close("support-reference", np.array(r.get_T_world_support()), Tws, atol=1e-8, msg=msg)
        check("support-side", r.support_side == side and r.get_support_side() == side, f"{msg}: {r.support_side} rather than {side}")
        close("left", np.array(r.get_T_world_left()), fk(q, "left_foot"), atol=1e-8, msg=msg)
        close("right", np.array(r.get_T_world_right()), fk(q, "right_foot"), atol=1e-8, msg=msg)
        close("trunk", np.array(r.get_T_world_trunk()), fk(q, "trunk"), atol=1e-8, msg=msg)
        close("frame", np.array(r.get_T_world_frame(frame)), fk(q, frame), atol=1e-8, msg=msg)
    verify("initially")
    check("other-side", placo.HumanoidRobot.other_side(LEFT) == RIGHT and placo.HumanoidRobot.other_side(RIGHT) == LEFT, "")
    close("initially", fk(q, "left_foot"), np.eye(4), atol=1e-9)
    changes = placed = 0
    n = g.integer(2, 14)
    for _ in range(n):
        op = g.weighted([(4, "joints"), (3, "side"), (2, "side-frame"), (4, "floor"), (2, "oriented"), (2, "imu"), (1, "reference"), (1, "state")])
        if op == "joints":
            v = rb.gen_q(g, r, base=False)
            for name in r.joint_names():
                r.set_joint(name, float(v[m.joints[m.getJointId(name)].idx_q]))
            r.update_kinematics()
            q[7:] = v[7:]
        elif op == "state":
            q = rb.gen_q(g, r)
            rb.set_q(r, q)
        elif op in ("side", "side-frame"):
            s = g.choice([LEFT, RIGHT])
            name = frames[s] if op == "side" else g.choice(extra[s])
            before = frame
            txt = "left" if s == LEFT else "right"
            if op == "side":
                r.update_support_side(txt)
            else:
                r.update_support_side_with_frame(txt, name)
            if name != before:
                frame, side = name, s
                if np.hypot(*fk(q, frame)[:2, 0]) < 1e-2:
                    raise Discard  # a foot pointing up has no heading
                Tws = np.array(placo.flatten_on_floor(fk(q, frame)))
                changes += 1
        elif op == "floor":
            if g.boolean(0.3):  # the joints moved since, and nothing else was called
                v = rb.gen_q(g, r, base=False)
                for name in r.joint_names():
                    r.set_joint(name, float(v[m.joints[m.getJointId(name)].idx_q]))
                q[7:] = v[7:]
            r.ensure_on_floor()
            q = place(q, Tws)
            placed += 1
        elif op in ("oriented", "imu"):
            R = g.rotation()
            if g.boolean(0.3):
                v = rb.gen_q(g, r, base=False)
                for name in r.joint_names():
                    r.set_joint(name, float(v[m.joints[m.getJointId(name)].idx_q]))
                q[7:] = v[7:]
            (r.ensure_on_floor_oriented if op == "oriented" else r.update_from_imu)(R)
            Tts = inv(fk(q, "trunk")) @ fk(q, frame)
            Tws = T_of(R @ Tts[:3, :3], Tws[:3, 3])
            q = place(q, Tws)
            close("trunk-orientation", np.array(r.get_T_world_trunk())[:3, :3], R, atol=1e-8, msg=op)
            placed += 1
        elif op == "reference":
            Tws = T_of(g.rotation() if g.boolean() else rot([0, 0, 1], g.flt(-3, 3)), g.vec(3, -1, 1))
            r.set_T_world_support(Tws)
        verify(op)
        if op in ("floor", "oriented", "imu"):
            close("support-placed", np.array(r.get_T_world_frame(frame)), Tws, atol=1e-8, msg=op)
    g.note(robot=kind, operations=n, changes=changes, placed=placed)
    g.nt(changes > 0 and placed > 0)
    g.cls(kind, f"changes{min(changes, 3)}")


def state(g, r):
    q = rb.gen_q(g, r)
    qd = g.gauss_vec(r.model.nv, 1.0) if g.boolean(0.85) else np.zeros(r.model.nv)
    rb.set_q(r, q, qd)
    return q, qd


def f_balance(g):
    r, kind = pick(g)
    m, d = r.model, r.model.createData()
    q, qd = state(g, r)
    om = g.pos(0.5, 20.0)
    v, a = g.gauss_vec(2, 1.0), g.gauss_vec(2, 3.0)
    com = pin.centerOfMass(m, d, q)[:2]
    close("dcm", r.dcm(om, v), com + v / om, atol=1e-9)
    close("zmp", r.zmp(om, a), com - a / om**2, atol=1e-9)
    # CoM velocity of the robot with its support foot still, its trunk turning at omega and its joints moving at qd
    side = g.choice([LEFT, RIGHT])
    frame = {LEFT: "left_foot", RIGHT: "right_foot"}[side]
    if g.boolean(0.4):  # the support goes through another frame
        s = g.choice([LEFT, RIGHT])
        alt = ("left" if s == LEFT else "right") + ("_ps_1" if kind == "generated" else "_foot_asm")
        r.update_support_side_with_frame("left" if s == LEFT else "right", alt)
        if s == side:
            frame = alt
    elif g.boolean():
        r.update_support_side("left" if g.boolean() else "right")
    w = g.gauss_vec(3, 1.0)
    got = np.array(r.get_com_velocity(side, w))
    # base twist solving both conditions, in the world frame
    pin.computeJointJacobians(m, d, q)
    pin.updateFramePlacements(m, d)
    Jf = pin.getFrameJacobian(m, d, m.getFrameId(frame), pin.LOCAL_WORLD_ALIGNED)[:3]
    it = m.getFrameId("trunk")
    Jt = pin.getFrameJacobian(m, d, it, pin.LOCAL_WORLD_ALIGNED)[3:]
    J = np.vstack([Jf, Jt])
    b = np.concatenate([np.zeros(3), d.oMf[it].rotation @ w])
    x = np.array(qd)
    x[:6] = np.linalg.solve(J[:, :6], b - J[:, 6:] @ qd[6:])
    want = pin.jacobianCenterOfMass(m, d, q) @ x
    close("com-velocity", got, want, atol=1e-8 * (1 + np.abs(x).max()), msg=f"{side} support through {frame}")
    # its finite difference: the robot integrated with that velocity
    h = 1e-6
    fd = (pin.centerOfMass(m, d, pin.integrate(m, q, h * x)) - pin.centerOfMass(m, d, pin.integrate(m, q, -h * x))) / (2 * h)
    close("com-velocity-motion", got, fd, atol=1e-5 * (1 + np.abs(x).max()))
    close("state-changed", np.array(r.state.q), q, atol=0)
    close("state-changed", np.array(r.state.qd), qd, atol=0)
    g.note(robot=kind, side=str(side), frame=frame)
    g.nt(bool(np.abs(qd[6:]).max() > 0))
    g.cls(kind, "foot" if frame.endswith("_foot") else "other-frame")


def f_torques(g):
    r, kind = pick(g, ps=True)
    m, d = r.model, r.model.createData()
    q, qd = state(g, r)
    if g.boolean(0.2):
        qd = qd * 0.02
        rb.set_q(r, q, qd)
    na = m.nv - 6
    acc, f = g.gauss_vec(na, 3.0), np.abs(g.gauss_vec(8, 30.0)) * np.array([g.boolean(0.8) for _ in range(8)])
    nle = g.boolean()
    tau = np.array(r.get_torques(acc, f, nle))
    names = [f"left_ps_{k}" for k in range(4)] + [f"right_ps_{k}" for k in range(4)]
    gen = np.zeros(m.nv)
    pin.computeJointJacobians(m, d, q)
    pin.updateFramePlacements(m, d)
    for n, fi in zip(names, f):
        i = m.getFrameId(n)
        J = pin.getFrameJacobian(m, d, i, pin.LOCAL_WORLD_ALIGNED)[:3]
        gen += J.T @ (d.oMf[i].rotation[:, 2] * fi)
    v = qd if nle else np.zeros(m.nv)
    # find the base acceleration leaving no wrench on the base, then the torques by inverse dynamics
    base = lambda ab: pin.rnea(m, d, q, v, np.concatenate([ab, acc])).copy() - gen
    t0 = base(np.zeros(6))
    A = np.stack([base(e)[:6] - t0[:6] for e in np.eye(6)], axis=1)
    ab = np.linalg.solve(A, -t0[:6])
    want = base(ab)
    s = 1 + np.abs(t0).max() + np.abs(want).max()
    close("torques", tau[6:], want[6:], atol=1e-7 * s, msg=f"non linear effects {nle}")
    close("base-wrench", tau[:6], np.zeros(6), atol=1e-7 * s)
    D = r.get_torques_dict(acc, f, nle)
    check("names", sorted(D.keys()) == sorted(m.names[k] for k in range(2, m.njoints)), f"{sorted(D.keys())}")
    for n in D.keys():
        close("torque-names", D[n], tau[m.joints[m.getJointId(n)].idx_v], atol=1e-12, msg=n)
    g.note(joints=na, nle=nle)
    g.nt(bool(f.any()) and bool(np.abs(acc).max() > 0))
    g.cls("nle" if nle else "gravity")


FACETS = [
    Facet("support", f_support, 600, 10000, "at least one support change and one placement"),
    Facet("balance", f_balance, 600, 10000, "joints are moving"),
    Facet("torques", f_torques, 500, 8000, "contact forces and accelerations"),
]
