"""P13: mass, gravity, bias and static torques satisfy rigid-body mechanics."""
import numpy as np
import pinocchio as pin
import placo
import robots as rb
from engine import Facet, Violation, Discard, close, check, raises
from p12 import twist_of

RULE = "A case is a robot, a configuration, velocities, gravity vector, rotor inertias and gear ratios, with one mechanics identity checked; non-trivial when the base is rotated and the velocity or acceleration involves the base and a joint."


def setup(g, spec_only=False):
    if spec_only:
        spec = rb.gen_robot(g, edge=True)
        r, kind = rb.make(spec), "random"
    else:
        r, spec, kind = rb.pick(g, w_random=8, edge=True)
    m = r.model
    if g.boolean(0.4):
        for _ in range(g.small(1, 2)):
            G = g.vec(3, -10, 10)
            r.set_gravity(G)
        close("gravity-set", m.gravity.linear, G, atol=0, rtol=0)
        close("gravity-set", m.gravity.angular, np.zeros(3), atol=0, rtol=0)
    grav = np.array(m.gravity.linear)
    q = rb.gen_q(g, r)
    qd = g.gauss_vec(m.nv)
    rotor = np.zeros(m.nv)
    if g.boolean(0.5):
        for n in g.subset(list(r.joint_names())):
            iv = m.joints[m.getJointId(n)].idx_v
            I, k = g.flt(0, 0.01, 0.2), g.flt(-20, 20, 0.2)
            r.set_rotor_inertia(n, I)
            r.set_gear_ratio(n, k)
            rotor[iv] = I * k * k
    rb.set_q(r, q, qd)
    g.note(robot=kind if spec is None else spec.describe(), q=q, qd=qd, gravity=grav)
    g.cls(kind)
    g.nt(np.linalg.norm(qd[:6]) > 0.1 and np.linalg.norm(qd[6:]) > 0.05)
    return r, spec, m, q, qd, grav, rotor


def full_mass(m, q, rotor):
    d = m.createData()
    M = pin.crba(m, d, q)
    M = np.triu(M) + np.triu(M, 1).T
    return M + np.diag(rotor)


def f_history(g):
    """Gravity, rotors and state change between the queries, each of which answers for the current values."""
    r, spec, m, q, qd, grav, rotor = setup(g)
    d = m.createData()
    names = list(r.joint_names())
    inertia, ratio = np.array(m.rotorInertia), np.array(m.rotorGearRatio)
    past, log = [q], []
    z = np.zeros(m.nv)
    for _ in range(g.integer(3, 14)):
        op = g.weighted([(3, "query"), (1, "gravity"), (1, "rotor"), (1, "gear"), (1, "q"), (1, "back"), (1, "qd"), (1, "joint")])
        log.append(op)
        if op == "gravity":
            grav = g.vec(3, -10, 10)
            r.set_gravity(grav)
            continue
        if op in ("rotor", "gear"):
            n = g.choice(names)
            iv = m.joints[m.getJointId(n)].idx_v
            if op == "rotor":
                inertia[iv] = g.flt(0, 0.01, 0.2)
                r.set_rotor_inertia(n, inertia[iv])
            else:
                ratio[iv] = g.flt(-20, 20, 0.2)
                r.set_gear_ratio(n, ratio[iv])
            continue
        if op != "query":
            if op == "q":
                q = rb.gen_q(g, r)
                past.append(q)
            elif op == "back":
                q = g.choice(past).copy()
            elif op == "joint":
                q = q.copy()
                q[g.integer(7, m.nq - 1)] += g.flt(-1, 1)
            else:
                qd = g.gauss_vec(m.nv)
            rb.set_q(r, q, qd)
            continue
        k = g.choice(["mass", "bias", "gravity", "total", "com", "static", "fixed"])
        log[-1] = k
        if k == "mass":
            close("h-mass", r.mass_matrix(), full_mass(m, q, inertia * ratio * ratio), atol=1e-9, rtol=1e-9, msg=str(log))
        elif k == "bias":
            close("h-bias", r.non_linear_effects(), pin.rnea(m, d, q, qd, z), atol=1e-8, rtol=1e-9, msg=str(log))
        elif k == "gravity":
            close("h-gravity", r.generalized_gravity(), pin.rnea(m, d, q, z, z), atol=1e-8, rtol=1e-9, msg=str(log))
            close("h-gravity-base", rb.quat_to_R(q[3:7]) @ np.array(r.generalized_gravity())[:3], -sum(I.mass for I in m.inertias) * grav, atol=1e-6, msg=str(log))
        elif k == "total":
            close("h-total", r.total_mass(), sum(I.mass for I in m.inertias), atol=1e-9, rtol=1e-12, msg=str(log))
        elif k == "com":
            close("h-com", r.com_world(), pin.centerOfMass(m, d, q), atol=1e-9, msg=str(log))
        else:
            f = g.choice(rb.body_frames(r))
            J = pin.computeFrameJacobian(m, d, q, m.getFrameId(f), pin.LOCAL_WORLD_ALIGNED).copy()
            if k == "static":
                need, got = pin.rnea(m, d, q, z, z).copy(), np.array(r.static_gravity_compensation_torques(f))[6:]
            else:
                qa = g.gauss_vec(m.nv - 6)
                dJ = rb.ndiff(lambda t: pin.computeFrameJacobian(m, d, rb.integ(m, q, qd * t), m.getFrameId(f), pin.LOCAL_WORLD_ALIGNED).copy(), 1e-4)
                qdd = np.concatenate([-np.linalg.solve(J[:, :6], J[:, 6:] @ qa + dJ @ qd), qa])
                need = full_mass(m, q, inertia * ratio * ratio) @ qdd + pin.rnea(m, d, q, qd, z)
                got = np.atleast_1d(r.torques_from_acceleration_with_fixed_frame(qa, f))
            want = (need - J.T @ np.linalg.solve(J[:, :6].T, need[:6]))[6:]
            close("h-" + k, got, want, atol=1e-5 * (1 + np.abs(need).max()), rtol=1e-5, msg=str(log))
    g.note(history=log)


def f_mass(g):
    r, spec, m, q, qd, grav, rotor = setup(g, spec_only=True)
    close("total-mass", r.total_mass(), sum(l.mass for l in spec.links), atol=1e-9)
    fk = lambda t: spec.fk(rb.base_T(rb.integ(m, q, qd * t)), rb.values(spec, r, rb.integ(m, q, qd * t)))
    F = fk(0.0)
    com = sum(l.mass * (F[l.name] @ np.append(l.com, 1))[:3] for l in spec.links) / sum(l.mass for l in spec.links)
    close("com", r.com_world(), com, atol=1e-9)
    M = r.mass_matrix()
    close("symmetric", M, M.T, atol=1e-10, rtol=1e-12)
    check("positive-definite", np.linalg.eigvalsh(M).min() > 0, f"{np.linalg.eigvalsh(M)}")
    E = 0.5 * float(rotor @ (qd * qd))
    for l in spec.links:
        tw = twist_of(lambda t: fk(t)[l.name], "local_world_aligned")
        R = F[l.name][:3, :3]
        v = tw[:3] + np.cross(tw[3:], R @ l.com)
        w = R.T @ tw[3:]
        E += 0.5 * l.mass * v @ v + 0.5 * w @ l.inertia @ w
    close("kinetic-energy", 0.5 * qd @ M @ qd, E, atol=1e-6, rtol=1e-6)


def f_bias(g):
    r, spec, m, q, qd, grav, rotor = setup(g)
    d = m.createData()
    close("total-mass-model", r.total_mass(), sum(I.mass for I in m.inertias), atol=1e-9, rtol=1e-12)
    close("mass-matrix", r.mass_matrix(), full_mass(m, q, rotor), atol=1e-9, rtol=1e-9)
    close("bias", r.non_linear_effects(), pin.rnea(m, d, q, qd, np.zeros(m.nv)), atol=1e-8, rtol=1e-9)
    G = r.generalized_gravity()
    close("gravity", G, pin.rnea(m, d, q, np.zeros(m.nv), np.zeros(m.nv)), atol=1e-8, rtol=1e-9)
    # the gravity torque is the gradient of the potential energy
    mass = sum(I.mass for I in m.inertias)
    pot = lambda t: -mass * grav @ pin.centerOfMass(m, d, rb.integ(m, q, qd * t))
    close("potential", G @ qd, rb.ndiff(pot, 1e-4), atol=1e-5, rtol=1e-6)
    # Newton's second law for the whole robot: the base force is m (a_com - g)
    qdd = g.gauss_vec(m.nv)
    base = (r.mass_matrix() - np.diag(rotor)) @ qdd + r.non_linear_effects()
    R = rb.quat_to_R(q[3:7])
    # qdd of the base is in the local frame: p'' = R (v' + w x v)
    close("newton", R @ base[:3], mass * (com_acc_from(m, d, q, qd, qdd) - grav), atol=1e-6 * mass, rtol=1e-6)


def com_acc_from(m, d, q, v, a):
    """Acceleration of the CoM by differentiating its velocity along (v, a)."""
    def vel(t):
        qt = rb.integ(m, q, v * t)  # first order is enough: only the derivative of J v is taken
        return pin.jacobianCenterOfMass(m, d, qt) @ (v + a * t)
    return rb.ndiff(vel, 1e-4)


def f_static(g):
    r, spec, m, q, qd, grav, rotor = setup(g)
    f = g.choice(rb.body_frames(r))
    g.note(frame=f)
    d = m.createData()
    qd0 = np.zeros(m.nv) if g.boolean(0.7) else qd
    rb.set_q(r, q, qd0)
    tau = r.static_gravity_compensation_torques(f)
    J = pin.computeFrameJacobian(m, d, q, m.getFrameId(f), pin.LOCAL_WORLD_ALIGNED)
    G = pin.computeGeneralizedGravity(m, d, q).copy()
    scale = 1 + np.abs(G).max()
    close("static-base", tau[:6], np.zeros(6), atol=1e-7 * scale)
    w, *_ = np.linalg.lstsq(J.T, G - tau, rcond=None)
    close("static-motion", tau + J.T @ w, G, atol=1e-6 * scale)
    D = r.static_gravity_compensation_torques_dict(f)
    names = list(r.joint_names())
    check("static-dict", set(D.keys()) == set(names))
    for n in names:
        close("static-dict", D[n], tau[m.joints[m.getJointId(n)].idx_v], atol=1e-12)


def f_fixed(g):
    r, spec, m, q, qd, grav, rotor = setup(g)
    f = g.choice(rb.body_frames(r))
    d = m.createData()
    J = pin.computeFrameJacobian(m, d, q, m.getFrameId(f), pin.LOCAL_WORLD_ALIGNED).copy()
    Ju = J[:, :6]
    # velocities compatible with the frame being fixed
    k = g.choice(["still", "moving"])
    if k == "still":
        qd = np.zeros(m.nv)
    else:
        qd = qd.copy()
        qd[:6] = -np.linalg.solve(Ju, J[:, 6:] @ qd[6:])
    rb.set_q(r, q, qd)
    qdd_a = g.gauss_vec(m.nv - 6, 3.0)
    tau = np.atleast_1d(r.torques_from_acceleration_with_fixed_frame(qdd_a, f))
    g.note(frame=f, qdd_a=qdd_a, kind=k)
    g.cls(k)
    dJ = rb.ndiff(lambda t: pin.computeFrameJacobian(m, d, rb.integ(m, q, qd * t), m.getFrameId(f), pin.LOCAL_WORLD_ALIGNED).copy(), 1e-4)
    qdd = np.concatenate([-np.linalg.solve(Ju, J[:, 6:] @ qdd_a + dJ @ qd), qdd_a])
    need = full_mass(m, q, rotor) @ qdd + pin.rnea(m, d, q, qd, np.zeros(m.nv))
    w = np.linalg.solve(Ju.T, need[:6])
    want = (need - J.T @ w)[6:]
    check("fixed-size", tau.size == m.nv - 6, f"{tau.size}")
    close("fixed-torques", tau, want, atol=1e-5 * (1 + np.abs(need).max()), rtol=1e-5, msg=k)
    D = r.torques_from_acceleration_with_fixed_frame_dict(qdd_a, f)
    for n in r.joint_names():
        close("fixed-dict", D[n], tau[m.joints[m.getJointId(n)].idx_v - 6], atol=1e-12)


FACETS = [
    Facet("history", f_history, 800, 15000, "base and joint velocities"),
    Facet("mass", f_mass, 800, 15000, "base and joint velocities"),
    Facet("bias", f_bias, 800, 15000, "base and joint velocities"),
    Facet("static", f_static, 600, 10000, "base and joint velocities"),
    Facet("fixed-frame", f_fixed, 800, 15000, "base and joint velocities drawn"),
]
