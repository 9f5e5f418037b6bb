"""P12: Jacobians, their time variations and Hessians are the true derivatives."""
import numpy as np
import pinocchio as pin
import placo
import robots as rb
from engine import Facet, Violation, Discard, close, check, raises

RULE = "A case is a robot, a configuration with a rotated base, a velocity and a shuffled list of Jacobian queries (interleaved with other queries), each compared with finite differences of forward kinematics; non-trivial when the velocity moves the base and several joints."
REFS = ["local", "world", "local_world_aligned"]


def twist_of(f, ref, h=1e-4):
    """Velocity of the moving frame f(t) (4x4) at t=0 in the given reference."""
    T = f(0.0)
    p = rb.ndiff(lambda t: f(t)[:3, 3], h)
    dR = rb.ndiff(lambda t: f(t)[:3, :3], h)
    W = dR @ T[:3, :3].T
    w = np.array([W[2, 1] - W[1, 2], W[0, 2] - W[2, 0], W[1, 0] - W[0, 1]]) / 2
    if ref == "local_world_aligned":
        return np.concatenate([p, w])
    if ref == "local":
        return np.concatenate([T[:3, :3].T @ p, T[:3, :3].T @ w])
    return np.concatenate([p + np.cross(T[:3, 3], w), w])


def setup(g, **kw):
    r, spec, kind = rb.pick(g, w_random=8, w_sig=1, w_quad=1, edge=True, **kw)
    m = r.model
    q = rb.gen_q(g, r)
    qd = g.gauss_vec(m.nv)
    rb.set_q(r, q, qd)
    g.note(robot=kind if spec is None else spec.describe(), q=q, qd=qd)
    g.cls(kind)
    g.nt(np.count_nonzero(np.abs(qd[6:]) > 0.05) >= min(2, m.nv - 6) and np.linalg.norm(qd[:6]) > 0.1)
    return r, spec, m, q, qd


def path(m, q, v):
    return lambda t: rb.integ(m, q, v * t)


def noise(g, r, frames):
    """Other queries must not disturb the next ones."""
    f = g.choice(frames)
    g.choice([lambda: r.com_world(), lambda: r.mass_matrix(), lambda: r.non_linear_effects(), lambda: r.generalized_gravity(), lambda: r.centroidal_map(),
              lambda: r.com_jacobian(), lambda: r.get_T_world_frame(f), lambda: r.static_gravity_compensation_torques(f), lambda: r.total_mass(),
              lambda: r.com_jacobian_time_variation(), lambda: r.compute_hessians()])()


def f_jacobian(g):
    r, spec, m, q, qd = setup(g)
    d = m.createData()
    frames = rb.body_frames(r)
    names = list(r.joint_names())
    interleave = g.boolean(0.5)
    for _ in range(5):
        if interleave:
            noise(g, r, frames)
        v = qd if g.boolean() else np.eye(m.nv)[g.integer(0, m.nv - 1)]
        c = path(m, q, v)
        what = g.choice(["frame", "frame", "joint", "relative", "com", "centroidal"])
        g.cls(what)
        ref = g.choice(REFS)
        if what == "frame":
            f = g.choice(frames)
            J = r.frame_jacobian(f, ref)
            close(f"frame-{ref}", J @ v, twist_of(lambda t: rb.frame_T(m, c(t), f, d), ref), atol=2e-7, rtol=1e-6, msg=f)
        elif what == "joint":
            j = g.choice(names + [m.names[1]])  # the floating base too

            def jT(t):
                pin.forwardKinematics(m, d, c(t))
                return d.oMi[m.getJointId(j)].homogeneous.copy()
            close(f"joint-{ref}", r.joint_jacobian(j, ref) @ v, twist_of(jT, ref), atol=2e-7, rtol=1e-6, msg=j)
        elif what == "relative":
            a, b = g.choice(frames), g.choice(frames)

            def rel(t):
                pin.framesForwardKinematics(m, d, c(t))
                A, B = d.oMf[m.getFrameId(a)].homogeneous, d.oMf[m.getFrameId(b)].homogeneous
                return (rb.inv(A) @ B)[:3, 3]
            close("relative-position", r.relative_position_jacobian(a, b) @ v, rb.ndiff(rel, 1e-4), atol=2e-7, rtol=1e-6, msg=f"{a} {b}")
        elif what == "com":
            close("com", r.com_jacobian() @ v, rb.ndiff(lambda t: pin.centerOfMass(m, d, c(t)).copy(), 1e-4), atol=2e-7, rtol=1e-6)
        else:
            # momentum about the CoM: sum over the bodies
            def bodies(t):
                pin.forwardKinematics(m, d, c(t))
                return [d.oMi[i].homogeneous.copy() for i in range(m.njoints)]
            com = pin.centerOfMass(m, d, q).copy()
            P, L = np.zeros(3), np.zeros(3)
            T0 = bodies(0.0)
            tw = []
            for i in range(1, m.njoints):
                tw.append(twist_of(lambda t: bodies(t)[i], "local_world_aligned"))
            for i in range(1, m.njoints):
                I = m.inertias[i]
                R = T0[i][:3, :3]
                w = tw[i - 1][3:]
                lev = R @ I.lever
                vc = tw[i - 1][:3] + np.cross(w, lev)
                P += I.mass * vc
                L += np.cross(T0[i][:3, 3] + lev - com, I.mass * vc) + R @ I.inertia @ R.T @ w
            close("centroidal", r.centroidal_map() @ v, np.concatenate([P, L]), atol=1e-6, rtol=1e-6)


def f_variation(g):
    r, spec, m, q, qd = setup(g)
    d = m.createData()
    frames = rb.body_frames(r)
    c = path(m, q, qd)
    PR = {"local": pin.LOCAL, "world": pin.WORLD, "local_world_aligned": pin.LOCAL_WORLD_ALIGNED}
    for _ in range(4):
        if g.boolean(0.3):
            noise(g, r, frames)
        if g.boolean(0.75):
            f, ref = g.choice(frames), g.choice(REFS)
            g.cls(ref)
            got = r.frame_jacobian_time_variation(f, ref)
            want = rb.ndiff(lambda t: pin.computeFrameJacobian(m, d, c(t), m.getFrameId(f), PR[ref]).copy(), 1e-4)
            close(f"variation-{ref}", got, want, atol=1e-6, rtol=1e-6, msg=f)
        else:
            g.cls("com")
            got = r.com_jacobian_time_variation()
            close("variation-com", got, rb.ndiff(lambda t: pin.jacobianCenterOfMass(m, d, c(t)).copy(), 1e-4), atol=1e-6, rtol=1e-6)


def f_hessian(g):
    r, spec, m, q, qd = setup(g)
    d = m.createData()
    frames = rb.body_frames(r)
    r.compute_hessians()
    for _ in range(3):
        f = g.choice(frames)
        j = g.choice(list(r.joint_names()))
        iv = m.joints[m.getJointId(j)].idx_v
        H = r.get_frame_hessian(f, j)
        c = path(m, q, np.eye(m.nv)[iv])
        close("hessian", H, rb.ndiff(lambda t: pin.computeFrameJacobian(m, d, c(t), m.getFrameId(f), pin.LOCAL).copy(), 1e-4), atol=1e-6, rtol=1e-6, msg=f"{f} {j}")


def f_stale(g):
    """After the state changes and kinematics are updated, everything answers for the new state."""
    r, spec, m, q, qd = setup(g)
    fresh = rb.make(spec) if spec is not None else rb.quadruped() if m.nq == 19 else rb.sigmaban()
    frames = rb.body_frames(r)
    past, hist = [], []
    for _ in range(g.small(1, 6)):
        for _ in range(g.small(1, 3)):
            noise(g, r, frames)
        past.append(q)
        how = g.choice(["new", "velocity", "back", "joint", "nudge", "acceleration"])
        hist.append(how)
        if how == "new":
            q, qd = rb.gen_q(g, r), g.gauss_vec(m.nv)
        elif how == "velocity":
            qd = g.gauss_vec(m.nv)
        elif how == "back":
            q = g.choice(past).copy()
        elif how == "joint":
            q = q.copy()
            q[g.integer(7, m.nq - 1)] += g.flt(-1, 1)
        elif how == "nudge":
            q = rb.integ(m, q, g.gauss_vec(m.nv) * g.choice([1e-3, 1e-5, 1e-7]))
        rb.set_q(r, q, qd)
        if g.boolean(0.3):
            r.compute_hessians()
    rb.set_q(fresh, q, qd)
    g.note(changes=hist)
    f, ref = g.choice(frames), g.choice(REFS)
    a = g.choice(frames)
    for x in (r, fresh):
        x.compute_hessians()
    j = g.choice(list(r.joint_names()))
    for k in g.shuffle(list(range(10))):
        fn = [lambda x: x.frame_jacobian(f, ref), lambda x: x.frame_jacobian_time_variation(f, ref), lambda x: x.relative_position_jacobian(f, a),
              lambda x: x.com_jacobian(), lambda x: x.com_jacobian_time_variation(), lambda x: x.centroidal_map(), lambda x: x.com_world(), lambda x: x.get_T_a_b(f, a), lambda x: x.joint_jacobian(j, ref), lambda x: x.get_frame_hessian(f, j)][k]
        close(f"history-{k}", fn(r), fn(fresh), atol=1e-9, rtol=1e-9)


FACETS = [
    Facet("jacobian", f_jacobian, 1200, 25000, "velocity on the base and two joints (or all)"),
    Facet("variation", f_variation, 800, 15000, "velocity on the base and two joints (or all)"),
    Facet("hessian", f_hessian, 500, 10000, "velocity on the base and two joints (or all)"),
    Facet("history", f_stale, 500, 8000, "velocity on the base and two joints (or all)"),
]
