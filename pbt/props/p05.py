"""P05: integrated decision variables follow the exact dynamics at all times."""
import math
import numpy as np
import placo
from scipy.linalg import expm
from engine import Facet, Violation, Discard, close, check, raises
import qp

RULE = "A case is an integrated variable (order, system matrix, steps, dt, start time, initial state, inputs) and query times; non-trivial when it has two steps or more and an order of two or more, or a custom matrix."


def gen_system(g):
    order = g.integer(1, 4)
    long = g.boolean(0.03)
    N = g.integer(40, 140) if long else g.integer(1, 8)
    dt = g.pos(0.005, 0.03) if long else g.pos(0.02, 0.6)
    custom = g.boolean(0.4)
    if long:
        g.cls("long")
    if custom:
        M = np.zeros((order + 1, order + 1))
        M[:order] = g.gauss_mat(order, order + 1) * (0.2 if long else 1.0)
        if g.boolean(0.3):
            M[:order] = placo.Integrator.upper_shift_matrix(order)[:order]
            M[order - 1, 0] = g.flt(-4, 4)
    else:
        M = np.diag(np.ones(order), 1)
    t_start = g.weighted([(2, 0.0), (1, 1.5), (1, -0.7), (1, 12.25)])
    return order, N, dt, custom, M, t_start


def exact(M, order, dt, X0, u, tau):
    """State and input at tau >= 0 after the start, by exponentials of each constant-input piece."""
    N = len(u)
    X = np.array(X0, float)
    k = 0
    while k < N - 1 and tau > (k + 1) * dt:
        X = (expm(M * dt) @ np.append(X, u[k]))[:order]
        k += 1
    rem = min(max(tau - k * dt, 0.0), dt)
    return (expm(M * rem) @ np.append(X, u[k]))[:order], k


def near_step(tau, dt):
    r = tau / dt
    return abs(r - round(r)) < 1e-6


def make(g, X0_expr=True):
    order, N, dt, custom, M, t_start = gen_system(g)
    p = placo.Problem()
    pre = g.integer(0, 3)
    w = p.add_variable(pre) if pre else None
    v = p.add_variable(N)
    post = p.add_variable(g.integer(1, 3)) if g.boolean(0.3) else None
    X0c = g.gauss_vec(order)
    C = None
    if custom:
        it = placo.Integrator(v, X0c, M, dt)
    else:
        if pre and g.boolean(0.5):
            C = g.gauss_mat(order, pre)
            it = placo.Integrator(v, w.expr().left_multiply(C) + X0c, order, dt)
        else:
            it = placo.Integrator(v, placo.Expression.from_vector(X0c), order, dt)
    it.t_start = t_start
    g.note(order=order, N=N, dt=dt, custom=custom, t_start=t_start, offset=pre, M=M if custom else "shift", X0="expression" if C is not None else "constant")
    g.nt(N >= 2 and (order >= 2 or custom))
    g.cls("custom" if custom else "shift", f"order{order}", "expr-X0" if C is not None else "const-X0")
    return p, w, v, post, it, order, N, dt, M, t_start, X0c, C


def query_times(g, N, dt, t_start, n=4, outside=False):
    ts = []
    for _ in range(n):
        k = g.weighted([(3, "in"), (2, "step"), (1, "end")] + ([(2, "out")] if outside else []))
        if k == "in":
            ts.append(t_start + g.flt(0, 1, 0) * N * dt)
        elif k == "step":
            ts.append(t_start + g.integer(0, N) * dt)
        elif k == "end":
            ts.append(t_start + N * dt)
        else:
            ts.append(t_start + g.choice([-1.0, -0.01, N * dt + 0.01, N * dt + 3.0]))
    return ts


def f_expr(g):
    p, w, v, post, it, order, N, dt, M, t_start, X0c, C = make(g)
    n = p.n_variables
    x = g.gauss_vec(n)
    X0 = X0c + (C @ x[:C.shape[1]] if C is not None else 0)
    u = x[v.k_start:v.k_end]
    sc = 1 + np.max(np.abs(u)) * 10
    Me = expm(M * dt)
    close("M", np.asarray(it.M).reshape(order + 1, order + 1), M)
    close("A", np.asarray(it.A).reshape(order, order), Me[:order, :order], atol=1e-8, rtol=1e-8)
    close("B", np.asarray(it.B).reshape(order), Me[:order, order], atol=1e-8, rtol=1e-8)
    F = np.asarray(it.final_transition_matrix).reshape(order, N)
    XN, _ = exact(M, order, dt, X0, u, N * dt)
    close("final-transition", np.linalg.matrix_power(Me[:order, :order], N) @ X0 + F @ u, XN, atol=1e-7 * sc, rtol=1e-7)
    for step in range(-1, N + 1):
        s = N if step == -1 else step
        Xs, _ = exact(M, order, dt, X0, u, s * dt)
        close("expr-step", it.expr(step).value(x), Xs, atol=1e-7 * sc, rtol=1e-7, msg=f"step {step}")
        d = g.integer(0, order - 1)
        close("expr-step-diff", it.expr(step, d).value(x), Xs[d:d + 1], atol=1e-7 * sc, rtol=1e-7, msg=f"step {step} diff {d}")
        if s < N:
            close("expr-step-input", it.expr(step, order).value(x), u[s:s + 1], msg=f"step {step}")
    for t in query_times(g, N, dt, t_start):
        Xs, k = exact(M, order, dt, X0, u, t - t_start)
        close("expr_t", it.expr_t(t).value(x), Xs, atol=1e-6 * sc, rtol=1e-6, msg=f"t {t}")
        d = g.integer(0, order - 1)
        close("expr_t-diff", it.expr_t(t, d).value(x), Xs[d:d + 1], atol=1e-6 * sc, rtol=1e-6, msg=f"t {t} diff {d}")
        if not near_step(t - t_start, dt):
            close("expr_t-input", it.expr_t(t, order).value(x), u[k:k + 1], msg=f"t {t}")


def f_solved(g):
    p, w, v, post, it, order, N, dt, M, t_start, X0c, C = make(g)
    raises("unsolved-value", lambda: it.value(t_start, 0))
    raises("unsolved-trajectory", lambda: it.get_trajectory())
    rounds = g.integer(1, 3)
    detached = None
    for r in range(rounds):
        p.clear_constraints()
        p.add_constraint(v.expr() == g.gauss_vec(N)).configure("soft", 1e-2)
        if w is not None:
            p.add_constraint(w.expr() == g.gauss_vec(w.k_end - w.k_start)).configure("soft", 1.0)
        tgt_step = g.integer(0, N)
        d = g.integer(0, order - 1)
        p.add_constraint(it.expr(tgt_step, d) == np.array([g.flt(-2, 2)])).configure("soft", 1.0)
        if g.boolean(0.4):
            p.add_limit(v.expr(), np.full(N, g.pos(0.3, 3)))
        p.rewrite_equalities = g.boolean()
        if not qp.solve(p):
            # an unstable system over a long horizon is beyond what the QP can resolve in doubles
            if np.max(np.abs(expm(M * N * dt))) > 1e3:
                raise Discard()
            p.solve()
        u = np.atleast_1d(v.value).reshape(-1)
        x = np.asarray(p.x).reshape(-1)
        X0 = X0c + (C @ np.atleast_1d(w.value).reshape(-1) if C is not None else 0)
        if g.boolean(0.3):
            t_start = it.t_start = g.flt(-3, 3)
        traj = it.get_trajectory()
        sc = 1 + np.max(np.abs(u)) * 10 + max(np.max(np.abs(exact(M, order, dt, X0, u, k * dt)[0])) for k in range(N + 1)) * (1 + np.max(np.abs(M)))
        close("duration", traj.duration(), N * dt, rtol=1e-9)
        for t in query_times(g, N, dt, t_start, 5, True):
            tau = min(max(t - t_start, 0), N * dt)
            Xs, k = exact(M, order, dt, X0, u, tau)
            for dd in range(order):
                close("value", it.value(t, dd), Xs[dd], atol=1e-6 * sc, rtol=1e-6, msg=f"t {t} diff {dd} round {r}")
                close("trajectory", traj.value(t, dd), Xs[dd], atol=1e-6 * sc, rtol=1e-6, msg=f"t {t} diff {dd} round {r}")
            if not near_step(tau, dt) or tau == 0 or t > t_start + N * dt:
                close("value-input", it.value(t, order), u[k], msg=f"t {t}")
                close("trajectory-input", traj.value(t, order), u[k], msg=f"t {t}")
            if t_start <= t <= t_start + N * dt:
                close("expr-vs-value", it.expr_t(t).value(x), Xs, atol=1e-6 * sc, rtol=1e-6, msg=f"t {t}")
        # continuity across steps of what is below the driven order
        for k in range(1, N):
            for dd in range(order):
                a, b = traj.value(t_start + k * dt - 1e-9, dd), traj.value(t_start + k * dt + 1e-9, dd)
                check("continuity", abs(a - b) < 1e-6 * sc, f"diff {dd} at step {k}: {a} {b}")
        if detached is not None:
            tr, ts, vals = detached
            for t, val in zip(ts, vals):
                close("detached-trajectory-changed", tr.value(t, 0), val, atol=1e-12, rtol=1e-12)
        ts = query_times(g, N, dt, t_start, 3)
        detached = (traj, ts, [traj.value(t, 0) for t in ts])


def f_chain(g):
    """An integrator started from the last state of another one, several levels deep."""
    order = g.integer(1, 3)
    p = placo.Problem()
    depth = g.integer(2, 4)
    X0c = g.gauss_vec(order)
    its, vs, dts = [], [], []
    prev = placo.Expression.from_vector(X0c)
    for k in range(depth):
        v = p.add_variable(g.integer(1, 5))
        dt = g.pos(0.05, 0.5)
        it = placo.Integrator(v, prev, order, dt)
        if g.boolean(0.3) and k < depth - 1:
            step = g.integer(0, v.k_end - v.k_start)
        else:
            step = -1
        prev = it.expr(step)
        its.append((it, step))
        vs.append(v)
        dts.append(dt)
    p.add_constraint(its[-1][0].expr(-1) == g.gauss_vec(order)).configure(g.choice(["soft", "hard"]), 1.0)
    for v in vs:
        p.add_constraint(v.expr() == np.zeros(v.k_end - v.k_start)).configure("soft", 1e-2)
    g.note(order=order, depth=depth, dts=dts)
    g.nt()
    if not qp.solve(p):
        raise Discard()
    M = np.diag(np.ones(order), 1)
    X = X0c
    for (it, step), v, dt in zip(its, vs, dts):
        u = np.atleast_1d(v.value).reshape(-1)
        N = len(u)
        sc = 1 + np.max(np.abs(u)) * 10 + np.max(np.abs(X))
        for t in query_times(g, N, dt, 0.0, 3):
            Xs, _ = exact(M, order, dt, X, u, t)
            for d in range(order):
                close("chained-value", it.value(t, d), Xs[d], atol=1e-6 * sc, rtol=1e-6)
        s = N if step == -1 else step
        X, _ = exact(M, order, dt, X, u, s * dt)


def f_invalid(g):
    p, w, v, post, it, order, N, dt, M, t_start, X0c, C = make(g)
    k = g.choice(["step", "neg", "diff", "diffneg", "t-diff", "t-diffneg", "input-last", "x0", "x0-custom", "value-diff"])
    g.cls(k)
    g.nt()
    if k == "step":
        raises("step-too-big", lambda: it.expr(N + 1 + g.integer(0, 3)))
        raises("step-too-big", lambda: it.expr(N + 1 + g.integer(0, 3), g.integer(0, order)))
    elif k == "neg":
        raises("step-negative", lambda: it.expr(-2 - g.integer(0, 3)))
    elif k == "diff":
        raises("diff-too-big", lambda: it.expr(g.integer(0, N), order + 1 + g.integer(0, 2)))
    elif k == "diffneg":
        raises("diff-negative", lambda: it.expr(g.integer(0, N), -2 - g.integer(0, 2)))
    elif k == "t-diff":
        raises("t-diff-too-big", lambda: it.expr_t(t_start, order + 1 + g.integer(0, 2)))
    elif k == "t-diffneg":
        raises("t-diff-negative", lambda: it.expr_t(t_start, -2 - g.integer(0, 2)))
    elif k == "input-last":
        raises("input-after-end", lambda: it.expr(N, order))
    elif k == "x0":
        m = order + g.choice([-1, 1, 2])
        if m < 1:
            m = order + 1
        raises("x0-size", lambda: placo.Integrator(v, placo.Expression.from_vector(np.ones(m)), order, dt))
    elif k == "x0-custom":
        raises("x0-size-custom", lambda: placo.Integrator(v, np.ones(order + 1), M, dt))
    else:
        p.add_constraint(v.expr() == np.zeros(N))
        p.solve()
        raises("value-diff", lambda: it.value(t_start, order + 1))
        raises("value-diff", lambda: it.value(t_start, -1))


FACETS = [
    Facet("expr", f_expr, 2500, 40000, "two steps or more, and order two or more or a custom matrix"),
    Facet("solved", f_solved, 2500, 40000, "two steps or more, and order two or more or a custom matrix"),
    Facet("chain", f_chain, 1500, 20000, "integrators chained through expressions"),
    Facet("invalid", f_invalid, 1500, 15000, "an invalid step, order or size"),
]
