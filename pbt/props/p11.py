"""P11: frames follow forward kinematics, and placing a frame puts it exactly there."""
import os
import shutil
import tempfile

import numpy as np
import placo
import robots as rb
from engine import Facet, Violation, Discard, close, check, raises

RULE = "A case is a robot, a configuration and a history of joint changes, base placements, frame placements and kinematics updates; non-trivial when a frame is placed (or the configuration is not neutral) with a rotation of the base."


def f_fk(g):
    spec = rb.gen_robot(g, max_joints=9, edge=True)
    r = rb.make(spec)
    q = rb.gen_q(g, r)
    if g.boolean(0.4):
        q[3:7] *= g.choice([1.0, -1.0])
    if g.boolean():
        for j, v in rb.values(spec, r, q).items():
            r.set_joint(j, v)
        r.set_T_world_fbase(rb.base_T(q))
    else:
        r.state.q = q
    q_set = np.array(r.state.q)
    r.update_kinematics()
    want = spec.fk(rb.base_T(q), rb.values(spec, r, q))
    g.note(robot=spec.describe(), q=q)
    g.cls(f"joints={len(spec.moving())}")
    g.nt(np.linalg.norm(q[7:]) > 0.1 and np.linalg.norm(q[3:6]) > 0.05)
    for n, T in want.items():
        close("frame", r.get_T_world_frame(n), T, atol=1e-9, msg=n)
    close("fbase", r.get_T_world_fbase(), rb.base_T(q), atol=1e-9)
    for j in spec.joints:  # joint frames: where the joint is, before (fixed) or after it moved
        got = r.get_T_world_frame(j.name)
        close("joint-frame", got, want[j.child], atol=1e-9, msg=j.name)
    ks = list(want)
    for _ in range(4):
        a, b = g.choice(ks), g.choice(ks)
        close("relative", r.get_T_a_b(a, b), rb.inv(want[a]) @ want[b], atol=1e-9, msg=f"{a} {b}")
    close("state-untouched", r.state.q, q_set, atol=0, rtol=0)


def f_place(g):
    r, spec, kind = rb.pick(g, edge=True)
    m = r.model
    frames = rb.body_frames(r)
    q = rb.gen_q(g, r)
    rb.set_q(r, q, rb.gen_q(g, r)[:m.nv] if g.boolean(0.3) else None)
    ops = []
    placed = False
    for _ in range(g.small(1, 8)):
        op = g.choice(["place", "place", "joint", "fbase", "joint-place"])
        f = g.choice(frames)
        before = np.array(r.state.q)
        v_before = np.array(r.state.qd)
        ops.append(f"{op} {f}")
        if op == "joint":
            r.set_joint(g.choice(list(r.joint_names())), g.flt(-1, 1))
            r.update_kinematics()
            continue
        if op == "joint-place":
            r.set_joint(g.choice(list(r.joint_names())), g.flt(-1, 1))
            r.update_kinematics()
            before = np.array(r.state.q)
        T = g.frame(3.0)
        if op == "fbase":
            r.set_T_world_fbase(T)
        else:
            r.set_T_world_frame(f, T)
        r.update_kinematics()
        placed = True
        after = np.array(r.state.q)
        close("joints-kept", after[7:], before[7:], atol=0, rtol=0, msg=ops[-1])
        close("velocity-kept", r.state.qd, v_before, atol=0, rtol=0)
        close("unit-quaternion", np.linalg.norm(after[3:7]), 1.0, atol=1e-7)
        got = r.get_T_world_fbase() if op == "fbase" else r.get_T_world_frame(f)
        close("placed", got, T, atol=1e-7, msg=ops[-1])
        O = rb.oracle_frames(r, after)
        B = rb.oracle_frames(r, before)
        for k in range(3):
            a, b = g.choice(frames), g.choice(frames)
            close("world-frame", r.get_T_world_frame(a), O[a], atol=1e-8)
            close("relative-kept", r.get_T_a_b(a, b), rb.inv(B[a]) @ B[b], atol=1e-7, msg=f"{a} {b}")
    g.note(robot=kind, ops=ops)
    g.cls(kind)
    g.nt(placed)


def f_two(g):
    """Two robots used in turn (the same model, or not) do not influence each other."""
    spec = rb.gen_robot(g, max_joints=5)
    pair = [rb.make(spec), rb.make(spec)]
    q = [None, None]
    for n in range(g.small(2, 8)):
        k = g.integer(0, 1)
        r = pair[k]
        what = g.choice(["own", "same", "joint", "read"])
        if what == "same" and q[1 - k] is not None:
            q[k] = q[1 - k].copy()
        elif what == "joint" and q[k] is not None:
            j = g.choice(list(r.joint_names()))
            q[k][r.get_joint_offset(j)] = g.flt(-1, 1)
        elif what != "read" or q[k] is None:
            what = "own"
            q[k] = rb.gen_q(g, r)
        if what != "read":
            r.state.q = q[k]
            r.update_kinematics()
        for i in (0, 1):
            if q[i] is None:
                continue
            want = spec.fk(rb.base_T(q[i]), rb.values(spec, pair[i], q[i]))
            close("two-robots-q", pair[i].state.q, q[i], atol=0, rtol=0)
            for f, T in want.items():
                if what == "read" and i == k:
                    pair[i].update_kinematics()
                close("two-robots", pair[i].get_T_world_frame(f), T, atol=1e-9, msg=f"robot {i} {f}")
    g.note(robot=spec.describe(), operations=n + 1)
    g.nt(q[0] is not None and q[1] is not None)


def mjcf(g, d):
    """A MJCF robot: its root body can have a placement, which the free joint keeps."""
    n = g.small(1, 4)
    pos, R0 = g.vec(3, -1, 1), g.rotation()
    free = g.boolean(0.7)
    T, body, axes = [rb.T_of(R0, pos)], [], []

    def quat(R):
        x = rb.R_to_quat(R)
        return f"{x[3]:.17g} {x[0]:.17g} {x[1]:.17g} {x[2]:.17g}"
    xml = f'<body name="b0" pos="{rb.s(pos)}" quat="{quat(R0)}">' + ('<freejoint name="floating"/>' if free else "")
    xml += '<inertial pos="0 0 0" mass="1" diaginertia="0.1 0.1 0.1"/><geom type="sphere" size="0.01"/>'
    for k in range(n):
        p, R, ax = g.vec(3, -0.3, 0.3), g.rotation(), g.unit(3)
        T.append(rb.T_of(R, p))
        axes.append(ax)
        xml += f'<body name="b{k + 1}" pos="{rb.s(p)}" quat="{quat(R)}"><joint name="h{k}" type="hinge" axis="{rb.s(ax)}" range="-2 2"/><inertial pos="0 0 0" mass="1" diaginertia="0.1 0.1 0.1"/><geom type="sphere" size="0.01"/>'
    xml += "</body>" * (n + 1)
    with open(d + "/robot.xml", "w") as f:
        f.write(f'<mujoco model="m"><compiler angle="radian"/><worldbody>{xml}</worldbody></mujoco>')
    return T, axes, free


def f_mjcf(g):
    d = tempfile.mkdtemp(prefix="verif-mjcf-")
    try:
        T, axes, free = mjcf(g, d)
        saved = os.dup(1)
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.close(dn)
        try:
            with rb.quiet():
                r = placo.RobotWrapper(d, rb.MJCF | rb.IGNORE_COLL)
        finally:
            os.dup2(saved, 1)
            os.close(saved)
    finally:
        shutil.rmtree(d)
    m = r.model
    names = [f"h{k}" for k in range(len(axes))]
    check("mjcf-joint-names", list(r.joint_names()) == names, f"{list(r.joint_names())}")
    vals = [g.flt(-2, 2) for _ in names]
    for n, v in zip(names, vals):
        r.set_joint(n, v)
    r.update_kinematics()
    # the base, at the neutral configuration, is at its placement in the file
    if free:
        close("mjcf-initial-base", r.get_T_world_fbase(), T[0], atol=1e-7)
    for _ in range(g.small(1, 4)):
        W = g.frame(2.0)
        k = g.integer(0, len(axes))
        if g.boolean(0.3):
            k = 0
            r.set_T_world_fbase(W)
        else:
            r.set_T_world_frame(f"b{k}", W)
        r.update_kinematics()
        close("mjcf-placed", r.get_T_world_frame(f"b{k}"), W, atol=1e-7)
        close("mjcf-fbase", r.get_T_world_fbase(), r.get_T_world_frame("b0"), atol=1e-7)
        for i in range(len(axes)):
            want = T[i + 1] @ rb.T_of(rb.rot(axes[i], vals[i]))
            close("mjcf-relative", r.get_T_a_b(f"b{i}", f"b{i + 1}"), want, atol=1e-7)
    g.note(bodies=len(T), free=free)
    g.cls("free" if free else "added-root")
    g.nt(free)


FACETS = [
    Facet("fk", f_fk, 1500, 30000, "joints away from 0 and a rotated base"),
    Facet("place", f_place, 1500, 30000, "a frame or the base is placed"),
    Facet("two", f_two, 400, 6000, "both robots were placed"),
    Facet("mjcf", f_mjcf, 300, 6000, "models whose file places the root body of a free joint"),
]
