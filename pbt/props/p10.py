"""P10: joint accessors read back what was set and touch nothing else."""
import numpy as np
import placo
import robots as rb
from engine import Facet, Violation, Discard, close, check, raises

RULE = "A case is a robot (random tree with shuffled names, or a real one) and a history of 1 to 25 accessor calls, every state and model vector being compared with a model of them after each call; non-trivial when at least two different joints and three kinds of setters are used."

VECS = ["q", "qd", "qdd", "lower", "upper", "vel", "eff", "rotor", "gear"]


def snapshot(r):
    m = r.model
    return {"q": np.array(r.state.q), "qd": np.array(r.state.qd), "qdd": np.array(r.state.qdd),
            "lower": np.array(m.lowerPositionLimit), "upper": np.array(m.upperPositionLimit), "vel": np.array(m.velocityLimit),
            "eff": np.array(m.effortLimit), "rotor": np.array(m.rotorInertia), "gear": np.array(m.rotorGearRatio)}


def compare(r, M, what):
    S = snapshot(r)
    for k in VECS:
        if S[k].shape != M[k].shape or not np.array_equal(S[k], M[k]):
            bad = np.flatnonzero(S[k] != M[k]) if S[k].shape == M[k].shape else S[k].shape
            raise Violation(f"vector-{k}", f"after {what}: {k} differs at {bad}: got {S[k]} want {M[k]}")


def val(g):
    return g.choice([0.0, 1.0, -1.0]) if g.boolean(0.1) else g.flt(-3, 3)


def f_history(g):
    r, spec, kind = rb.pick(g, edge=True)
    m = r.model
    names = [n for n in m.names if n not in ("universe", "root_joint")]
    iq = {n: m.joints[m.getJointId(n)].idx_q for n in names}
    iv = {n: m.joints[m.getJointId(n)].idx_v for n in names}
    M = snapshot(r)
    neutral = np.zeros(m.nq)
    neutral[6] = 1
    close("neutral-start", M["qd"], np.zeros(m.nv))
    close("neutral-start", M["qdd"], np.zeros(m.nv))
    if kind != "sigmaban":
        close("neutral-start", M["q"], neutral)
    if spec is not None:
        check("joint-names", sorted(r.joint_names()) == sorted(j.name for j in spec.moving()), f"{list(r.joint_names())}")
        fn = set(r.frame_names())
        check("frame-names", all(l.name in fn for l in spec.links) and all(j.name in fn for j in spec.joints), f"{fn}")
        for j in spec.moving():
            lo, up = r.get_joint_limits(j.name)
            if j.limited:
                close("urdf-limits", [lo, up], [j.lower, j.upper], atol=1e-12)
            else:
                check("urdf-no-limits", lo < -1e300 and up > 1e300, f"{lo} {up}")
            close("urdf-velocity", m.velocityLimit[iv[j.name]], j.velocity, atol=1e-12)
            close("urdf-effort", m.effortLimit[iv[j.name]], j.effort, atol=1e-12)
    check("joint-names-order", list(r.joint_names()) == names)
    check("joint-names-all", set(r.joint_names(True)) == set(m.names))
    used, kinds = set(), set()
    ops = []
    for _ in range(g.small(1, 25)):
        op = g.choice(["joint", "velocity", "acceleration", "limits", "vlimit", "tlimit", "vlimits", "rotor", "gear", "base", "reset",
                       "neutral", "read", "unknown", "update", "write", "assign"])
        j = g.choice(names)
        v = val(g)
        ops.append(f"{op} {j}")
        if op == "joint":
            r.set_joint(j, v)
            M["q"][iq[j]] = v
        elif op == "velocity":
            r.set_joint_velocity(j, v)
            M["qd"][iv[j]] = v
        elif op == "acceleration":
            r.set_joint_acceleration(j, v)
            M["qdd"][iv[j]] = v
        elif op == "limits":
            w = val(g)
            r.set_joint_limits(j, v, w)
            M["lower"][iq[j]], M["upper"][iq[j]] = v, w
        elif op == "vlimit":
            r.set_velocity_limit(j, abs(v))
            M["vel"][iv[j]] = abs(v)
        elif op == "tlimit":
            r.set_torque_limit(j, abs(v))
            M["eff"][iv[j]] = abs(v)
        elif op == "vlimits":
            r.set_velocity_limits(abs(v))
            for n in names:
                M["vel"][iv[n]] = abs(v)
        elif op == "rotor":
            r.set_rotor_inertia(j, abs(v))
            M["rotor"][iv[j]] = abs(v)
        elif op == "gear":
            r.set_gear_ratio(j, abs(v))
            M["gear"][iv[j]] = abs(v)
        elif op == "base":
            T = g.frame(2.0)
            r.set_T_world_fbase(T)
            q = np.array(r.state.q)
            close("base-position", q[:3], T[:3, 3], atol=1e-12)
            close("base-rotation", rb.quat_to_R(q[3:7]), T[:3, :3], atol=1e-9)
            close("base-norm", np.linalg.norm(q[3:7]), 1.0, atol=1e-9)
            close("base-read", r.get_T_world_fbase(), T, atol=1e-9)
            M["q"][:7] = q[:7]
        elif op == "reset":
            r.reset()
            M["q"], M["qd"], M["qdd"] = neutral.copy(), np.zeros(m.nv), np.zeros(m.nv)
        elif op == "neutral":
            st = r.neutral_state()
            close("neutral", st.q, neutral)
            close("neutral", st.qd, np.zeros(m.nv))
            close("neutral", st.qdd, np.zeros(m.nv))
            st.q = np.ones(m.nq) * 5
        elif op == "unknown":
            bad = g.choice(["nope", "", j + "x", "body_nope", j.upper() + "_"])
            fns = [lambda: r.set_joint(bad, 1.0), lambda: r.get_joint(bad), lambda: r.set_joint_velocity(bad, 1.0), lambda: r.get_joint_velocity(bad),
                   lambda: r.set_joint_acceleration(bad, 1.0), lambda: r.get_joint_acceleration(bad), lambda: r.set_joint_limits(bad, -1.0, 1.0),
                   lambda: r.get_joint_limits(bad), lambda: r.set_velocity_limit(bad, 1.0), lambda: r.set_torque_limit(bad, 1.0),
                   lambda: r.set_rotor_inertia(bad, 1.0), lambda: r.set_gear_ratio(bad, 2.0), lambda: r.get_joint_offset(bad), lambda: r.get_joint_v_offset(bad),
                   lambda: r.get_joint_size(bad), lambda: r.get_joint_v_size(bad), lambda: r.get_T_world_frame(bad), lambda: r.get_T_a_b("root_joint", bad),
                   lambda: r.get_T_a_b(bad, "root_joint"), lambda: r.set_T_world_frame(bad, np.eye(4)), lambda: r.frame_jacobian(bad, "local"),
                   lambda: r.frame_jacobian_time_variation(bad, "local"), lambda: r.joint_jacobian(bad, "local"), lambda: r.relative_position_jacobian(bad, "root_joint"),
                   lambda: r.relative_position_jacobian("root_joint", bad), lambda: r.get_frame_hessian(bad, j), lambda: r.get_frame_hessian("root_joint", bad),
                   lambda: r.static_gravity_compensation_torques(bad), lambda: r.torques_from_acceleration_with_fixed_frame(np.zeros(m.nv - 6), bad),
                   lambda: r.frame_jacobian("root_joint", bad), lambda: r.joint_jacobian(j, bad)]
            k = g.integer(0, len(fns) - 1)
            raises("unknown-name", fns[k], f"accessor #{k} with the unknown name {bad!r}")
        elif op == "update":
            r.update_kinematics()
        elif op == "write":
            k = g.integer(7, m.nq - 1)
            r.state.q[k] = v
            M["q"][k] = v
        elif op == "assign":
            q = M["q"].copy()
            q[7:] = g.gauss_vec(m.nq - 7)
            r.state.q = q
            M["q"] = q.copy()
        if op in ("joint", "velocity", "acceleration", "limits", "vlimit", "tlimit", "rotor", "gear"):
            used.add(j)
            kinds.add(op)
        compare(r, M, ops[-1])
        for n in names if op == "read" else [j]:
            check("read-joint", r.get_joint(n) == M["q"][iq[n]], n)
            check("read-velocity", r.get_joint_velocity(n) == M["qd"][iv[n]], n)
            check("read-acceleration", r.get_joint_acceleration(n) == M["qdd"][iv[n]], n)
            lim = r.get_joint_limits(n)
            check("read-limits", lim[0] == M["lower"][iq[n]] and lim[1] == M["upper"][iq[n]], n)
            check("offset", r.get_joint_offset(n) == iq[n], n)
            check("v-offset", r.get_joint_v_offset(n) == iv[n], n)
            check("size", r.get_joint_size(n) == 1 and r.get_joint_v_size(n) == 1, n)
    g.note(robot=kind, ops=ops)
    g.cls(kind, *[o.split()[0] for o in ops])
    g.nt(len(used) >= 2 and len(kinds) >= 3)


def f_two(g):
    """Two robots never share anything."""
    spec = rb.gen_robot(g)
    a, b = rb.make(spec), rb.make(spec)
    names = list(a.joint_names())
    before = snapshot(b)
    for _ in range(g.small(1, 6)):
        j = g.choice(names)
        v = g.flt(-3, 3)
        g.choice([a.set_joint, a.set_joint_velocity, a.set_joint_acceleration, a.set_velocity_limit, a.set_torque_limit, a.set_rotor_inertia, a.set_gear_ratio])(j, v)
        a.set_joint_limits(j, -abs(v), abs(v))
        a.set_gravity(g.vec(3))
    g.nt(len(names) > 1)
    g.note(robot=spec.describe())
    compare(b, before, "changes of another robot")


FACETS = [
    Facet("history", f_history, 1500, 30000, "two joints and three kinds of setters or more"),
    Facet("two-robots", f_two, 150, 3000, "robots with at least two joints"),
]
