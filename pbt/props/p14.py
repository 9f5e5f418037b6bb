"""P14: integrating the state follows the constant-acceleration motion."""
import numpy as np
import pinocchio as pin
import placo
import robots as rb
from engine import Facet, Violation, Discard, close, check, raises

RULE = "A case is a robot, a state and a history of 1 to 30 integration steps (with acceleration changes in between), or one noise call; non-trivial when the base rotates and joints accelerate (noise: at least one limited joint)."


def exp6(v):
    """Own exponential of a body twist [linear, angular]."""
    lin, w = v[:3], v[3:]
    th = np.linalg.norm(w)
    W = rb.skew(w)
    if th < 1e-6:
        V = np.eye(3) + W / 2 + W @ W / 6
        R = np.eye(3) + W + W @ W / 2
    else:
        R = rb.rot(w, th)
        V = np.eye(3) + (1 - np.cos(th)) / th ** 2 * W + (th - np.sin(th)) / th ** 3 * W @ W
    return rb.T_of(R, V @ lin)


def f_integrate(g):
    r, spec, kind = rb.pick(g, edge=True)
    m = r.model
    q, qd, qdd = rb.gen_q(g, r), g.gauss_vec(m.nv, g.pos(0.1, 3)), g.gauss_vec(m.nv, g.pos(0.1, 10))
    if g.boolean(0.15):
        qdd[:] = 0
    rb.set_q(r, q, qd, qdd)
    T, x, v = rb.base_T(q), q[7:].copy(), qd.copy()
    n = g.small(1, 30)
    for k in range(n):
        dt = g.choice([1e-3, 0.01, 0.1, 0.0, 1e-4, 1e-6, 1e-9]) if g.boolean(0.6) else g.flt(-0.2, 0.5)
        if g.boolean(0.15):
            qdd = g.gauss_vec(m.nv, 5.0)
            r.state.qdd = qdd
        last = np.array(r.state.q)
        r.integrate(dt)
        v = v + dt * qdd
        # however small the step is
        close("small-step", np.array(r.state.q)[7:] - last[7:], v[6:] * dt, atol=4e-16 * (1 + np.abs(last).max()), rtol=1e-9, msg=f"dt {dt}")
        b0, b1 = rb.base_T(last), rb.base_T(np.array(r.state.q))
        mv = np.concatenate([b0[:3, :3].T @ (b1[:3, 3] - b0[:3, 3]), rb.log3(b0[:3, :3].T @ b1[:3, :3])])
        if np.linalg.norm(v[:6] * dt) < 1e-3:  # first order
            close("small-base-step", mv, v[:6] * dt, atol=1e-8 + np.linalg.norm(v[:6] * dt) ** 2 if np.linalg.norm(v[:6] * dt) > 1e-5 else 3e-15 * (1 + np.abs(last).max()) + np.linalg.norm(v[:6] * dt) ** 2, rtol=1e-6, msg=f"dt {dt}")
        T = T @ exp6(v[:6] * dt)
        x = x + v[6:] * dt
        got = np.array(r.state.q)
        s = 1 + np.abs(v).max()
        close("velocity", r.state.qd, v, atol=1e-9 * s)
        close("acceleration-kept", r.state.qdd, qdd, atol=0, rtol=0)
        close("joints", got[7:], x, atol=1e-9 * s)
        close("quaternion", np.linalg.norm(got[3:7]), 1.0, atol=1e-6)
        close("base", rb.base_T(got), T, atol=1e-6 * s)
        T = rb.base_T(got)
    g.note(robot=kind, steps=n)
    g.cls(kind)
    g.nt(np.linalg.norm(qd[3:6]) > 0.05 and np.linalg.norm(qdd[6:]) > 0.05)


def f_converge(g):
    """Halving the step halves the distance to the true constant-acceleration motion."""
    spec = rb.gen_robot(g, max_joints=3)
    r = rb.make(spec)
    m = r.model
    q, qd, qdd = rb.gen_q(g, r), g.gauss_vec(m.nv, 1.0), g.gauss_vec(m.nv, 2.0)
    H = g.flt(0.1, 0.5, 0)
    res = []
    for n in (20, 40, 2000):
        rb.set_q(r, q, qd, qdd)
        for _ in range(n):
            r.integrate(H / n)
        res.append(np.array(r.state.q))
    joints = q[7:] + qd[6:] * H + qdd[6:] * H * H / 2
    for n, x in zip((20, 40, 2000), res):
        close("joint-motion", x[7:], joints + qdd[6:] * H * H / (2 * n), atol=1e-8)
    a, b = (np.abs(rb.base_T(x) - rb.base_T(res[2])).max() for x in res[:2])
    check("base-converges", b < 0.7 * a + 1e-8, f"errors {a} {b}")
    g.note(horizon=H)
    g.nt(True)


def f_noise(g):
    r, spec, kind = rb.pick(g, w_random=10, edge=True)
    m = r.model
    q, qd, qdd = rb.gen_q(g, r), g.gauss_vec(m.nv), g.gauss_vec(m.nv)
    names = list(r.joint_names())
    if g.boolean(0.4):
        n = g.choice(names)
        k = m.joints[m.getJointId(n)].idx_q
        a, b = sorted([g.flt(-1, 1), g.flt(-1, 1)])
        r.set_joint_limits(n, a, b)
        q[k] = a + (b - a) * g.flt(0, 1)
    rb.set_q(r, q, qd, qdd)
    noise = g.choice([0.0, 1.0]) if g.boolean(0.2) else g.flt(0, 1)
    r.add_q_noise(noise)
    got = np.array(r.state.q)
    close("noise-base", got[:7], q[:7], atol=0, rtol=0)
    close("noise-velocity", r.state.qd, qd, atol=0, rtol=0)
    close("noise-acceleration", r.state.qdd, qdd, atol=0, rtol=0)
    lim = [k for k in range(7, m.nq) if m.lowerPositionLimit[k] > -rb.BIG and m.upperPositionLimit[k] < rb.BIG]
    for k in range(7, m.nq):
        if k in lim:
            check("noise-limits", m.lowerPositionLimit[k] - 1e-9 <= got[k] <= m.upperPositionLimit[k] + 1e-9,
                  f"joint {k}: {q[k]} -> {got[k]} limits {m.lowerPositionLimit[k]} {m.upperPositionLimit[k]}")
            span = m.upperPositionLimit[k] - m.lowerPositionLimit[k]
            check("noise-amplitude", abs(got[k] - q[k]) <= noise * span + 1e-9, f"{k}")
            if noise > 1e-3 and span > 1e-3:
                check("noise-moves", got[k] != q[k], f"limited joint {k} did not move")
        else:
            check("noise-unlimited", np.isfinite(got[k]), f"{k}: {got[k]}")
    g.note(robot=kind, noise=noise)
    g.cls(kind, "noise0" if noise == 0 else "noise")
    g.nt(bool(lim) and noise > 0)


FACETS = [
    Facet("integrate", f_integrate, 1200, 25000, "rotating base and accelerating joints"),
    Facet("converge", f_converge, 150, 2000, "always"),
    Facet("noise", f_noise, 1200, 25000, "at least a limited joint and a positive noise"),
]
