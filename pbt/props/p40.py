"""P40: LIPM trajectories obey the linear inverted pendulum equations."""
import math
import numpy as np
import placo
from engine import Facet, Violation, Discard, close, check

RULE = "A case is a chain of pendulums in one problem; non-trivial when there are two or more timesteps in all and the jerks are not all zero."
G = 9.80665


def integrate(s, j, h):
    """State (pos, vel, acc) after a time h with a constant jerk j."""
    p, v, a = s
    return np.array([p + v * h + a * h * h / 2 + j * h**3 / 6, v + a * h + j * h * h / 2, a + j * h])


class Chain:
    """Reference model of a chain: states at every timestep from the jerks of the assignment."""

    def __init__(self, g):
        self.g = g
        self.problem = placo.Problem()
        if g.boolean(0.3):
            self.problem.add_variable(g.integer(1, 3))
        self.lipms = []
        self.init = g.vec(6, -1, 1)  # x y vx vy ax ay
        self.k = g.weighted([(3, 1), (3, 2), (2, 3), (1, 5)])
        t = g.flt(-5, 50)
        same = g.boolean(0.5)
        step = lambda: g.pos(0.01, 0.3) if g.boolean(0.85) else g.pos(2e-4, 0.01)
        dt0 = step()
        i = self.init
        for n in range(self.k):
            N = g.small(1, 20) if g.boolean(0.92) else g.integer(21, 40)
            dt = dt0 if same else step()
            if n == 0:
                l = placo.LIPM(self.problem, dt, N, t, i[:2].copy(), i[2:4].copy(), i[4:6].copy())
            else:
                l = placo.LIPM.build_LIPM_from_previous(self.problem, dt, N, t, self.lipms[-1][0])
            self.lipms.append((l, dt, N, t))
            close("t-end", l.t_end, t + N * dt, atol=1e-9)
            close("t-start", l.t_start, t, atol=1e-12)
            check("timesteps", l.timesteps == N and abs(l.dt - dt) < 1e-12, f"{l.timesteps} {l.dt}")
            t += N * dt

    def states(self, x):
        """For each pendulum, the list of ((x state, y state)) at its timesteps and its jerks."""
        out = []
        sx, sy = self.init[[0, 2, 4]], self.init[[1, 3, 5]]
        for l, dt, N, t in self.lipms:
            jx = x[l.x_var.k_start:l.x_var.k_end]
            jy = x[l.y_var.k_start:l.y_var.k_end]
            check("variable-size", len(jx) == N and len(jy) == N, f"{len(jx)} {len(jy)}")
            seq = [(sx, sy)]
            for k in range(N):
                sx, sy = integrate(sx, jx[k], dt), integrate(sy, jy[k], dt)
                seq.append((sx, sy))
            out.append((seq, jx, jy))
        return out


def quantities(sx, sy, jx, jy, om):
    p, v, a = np.array([sx[0], sy[0]]), np.array([sx[1], sy[1]]), np.array([sx[2], sy[2]])
    q = {"pos": p, "vel": v, "acc": a, "dcm": p + v / om, "zmp": p - a / om**2}
    if jx is not None:
        j = np.array([jx, jy])
        q["jerk"] = j
        q["dzmp"] = v - j / om**2
    return q


def call(o, name, arg, om):
    if name == "dcm":
        return o.dcm(arg, om)
    if name in ("zmp", "dzmp"):
        return getattr(o, name)(arg, om**2)
    return getattr(o, name)(arg)


def f_expressions(g):
    """At any assignment of the jerks, every expression has the value the pendulum equations give."""
    c = Chain(g)
    h = g.pos(0.1, 3.0) if g.boolean(0.7) else g.pos(0.01, 50.0)
    om = placo.LIPM.compute_omega(h)
    close("omega", om, math.sqrt(G / h), rtol=1e-9)
    x = g.gauss_vec(c.problem.n_variables, g.choice([1.0, 10.0, 0.1]))
    ref = c.states(x)
    tot = sum(N for _, _, N, _ in c.lipms)
    g.note(chain=[(dt, N, t) for _, dt, N, t in c.lipms], init=c.init)
    g.nt(tot >= 2 and np.any(x))
    g.cls(f"chain{c.k}")
    scale = 1 + np.abs(x).max() + np.abs(c.init).max()
    T = sum(dt * N for _, dt, N, _ in c.lipms)
    tol = 1e-9 * scale * (1 + T) ** 3 * (1 + 1 / om**2)
    for (l, dt, N, t), (seq, jx, jy) in zip(c.lipms, ref):
        steps = sorted({0, N, g.integer(0, N), g.integer(0, N)})
        for k in steps + [-1]:
            kk = N if k == -1 else k
            q = quantities(*seq[kk], jx[kk] if kk < N else None, jy[kk] if kk < N else None, om)
            for name, want in q.items():
                got = np.ravel(call(l, name, k, om).value(x))
                close(f"{name}-expression", got, want, atol=tol, msg=f"timestep {k} of {N}")


def f_trajectory(g):
    """After solving, trajectories start from the state, meet what was imposed, chain, and follow the equations at all times."""
    c = Chain(g)
    h = g.pos(0.1, 3.0) if g.boolean(0.7) else g.pos(0.01, 50.0)
    om = math.sqrt(G / h)
    imposed = []
    for l, dt, N, t in c.lipms:
        for _ in range(g.small(0, 3)):
            k = g.integer(1, N)
            name = g.choice(["pos", "vel", "acc", "zmp", "dcm"] + (["jerk", "dzmp"] if k < N else []))
            y = g.vec(2, -1, 1)
            c.problem.add_constraint(call(l, name, k, om) == y).configure("soft", g.choice([0.1, 1.0, 10.0]))
            imposed.append((name, k))
    c.problem.solve()
    x = np.array(c.problem.x)
    ref = c.states(x)
    tot = sum(N for _, _, N, _ in c.lipms)
    g.note(chain=[(dt, N, t) for _, dt, N, t in c.lipms], init=c.init, imposed=imposed)
    g.nt(tot >= 2 and np.abs(x).max() > 1e-9)
    g.cls(f"chain{c.k}")
    T = sum(dt * N for _, dt, N, _ in c.lipms)
    tol = 1e-8 * (1 + np.abs(x).max() + np.abs(c.init).max()) * (1 + T) ** 3
    last = None
    for (l, dt, N, t), (seq, jx, jy) in zip(c.lipms, ref):
        tr = l.get_trajectory()
        te = t + N * dt
        for _ in range(4):
            q = g.weighted([(6, None), (1, t), (1, te), (1, t - 0.5), (1, te + 0.5), (2, "node")])
            if q is None:
                q = t + (te - t) * g.flt(0, 1)
            elif q == "node":
                q = t + g.integer(0, N) * dt
            qc = min(max(q, t), te)
            k = min(N - 1, int(math.floor((qc - t) / dt + 1e-9)))
            k = max(k, 0)
            r = qc - t - k * dt
            near = min(r, dt - r) < 1e-7 * (1 + abs(t))  # the jerk is not continuous there
            s = integrate(seq[k][0], jx[k], r), integrate(seq[k][1], jy[k], r)
            want = quantities(*s, jx[k], jy[k], om)
            for name, w in want.items():
                if name in ("jerk", "dzmp") and near:
                    continue
                close(f"{name}-trajectory", np.ravel(call(tr, name, q, om)), w, atol=tol * (1 + 1 / om**2), msg=f"t={q} in [{t}, {te}]")
        if last is not None:
            for name in ("pos", "vel", "acc", "dcm", "zmp"):
                close("chained", np.ravel(call(tr, name, t, om)), np.ravel(call(last[0], name, last[1], om)), atol=tol * (1 + 1 / om**2), msg=name)
        else:
            close("initial-pos", tr.pos(t), c.init[:2], atol=tol)
            close("initial-vel", tr.vel(t), c.init[2:4], atol=tol)
            close("initial-acc", tr.acc(t), c.init[4:6], atol=tol)
        last = (tr, te)


def f_reach(g):
    """Hard targets at the end of a long enough pendulum are met exactly, with the ZMP kept in a polygon."""
    p = placo.Problem()
    h = g.pos(0.2, 1.5)
    om = math.sqrt(G / h)
    N = g.integer(4, 16)
    dt = g.pos(0.03, 0.2)
    t0 = g.flt(-2, 10)
    init = g.vec(6, -0.2, 0.2)
    l = placo.LIPM(p, dt, N, t0, init[:2].copy(), init[2:4].copy(), init[4:6].copy())
    target = g.vec(6, -0.3, 0.3)
    # magnitude of the jerks needed (minimum norm), to stay in a well scaled domain
    A = np.zeros((3, N))
    for k in range(N):
        s = integrate(np.zeros(3), 1.0, dt)
        A[:, k] = integrate(s, 0.0, (N - 1 - k) * dt)
    free = integrate(init[[0, 2, 4]], 0.0, N * dt), integrate(init[[1, 3, 5]], 0.0, N * dt)
    js = [np.linalg.lstsq(A, target[[i, 2 + i, 4 + i]] - free[i], rcond=None)[0] for i in (0, 1)]
    size = max(np.abs(j).max() for j in js)
    if size > 1e4:
        raise Discard
    p.add_constraint(l.pos(N) == target[:2])
    p.add_constraint(l.vel(N) == target[2:4])
    p.add_constraint(l.acc(-1 if g.boolean() else N) == target[4:6])
    p.solve()
    tr = l.get_trajectory()
    te = t0 + N * dt
    g.note(N=N, dt=dt, init=init, target=target)
    g.nt(True)
    tol = 1e-4
    close("target-pos", tr.pos(te), target[:2], atol=tol)
    close("target-vel", tr.vel(te), target[2:4], atol=tol)
    close("target-acc", tr.acc(te), target[4:6], atol=tol)
    close("zmp-at-target", tr.zmp(te, om**2), target[:2] - target[4:6] / om**2, atol=tol * (1 + 1 / om**2))


FACETS = [
    Facet("expressions", f_expressions, 2500, 40000, "two timesteps or more and some jerk"),
    Facet("trajectory", f_trajectory, 1500, 25000, "two timesteps or more and some jerk"),
    Facet("reach", f_reach, 800, 12000, "every case"),
]
