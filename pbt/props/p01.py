"""P01: a solved QP satisfies every hard constraint, or the solve raises."""
import os
import select
import signal
import numpy as np
import placo
from engine import Facet, Violation, Discard, close, check, raises
import qp

RULE = "A case is a random QP (variables, hard and soft constraints, options); it is non-trivial when at least one hard constraint binds, or when the problem is infeasible or ill-sized and must raise."


def in_child(fn, timeout=1.0):
    """fn() (a boolean) evaluated in a forked child; None when the child died or did not answer."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 2)
            os.write(w, b"1" if fn() else b"0")
        finally:
            os._exit(0)
    os.close(w)
    rl, _, _ = select.select([r], [], [], timeout)
    data = os.read(r, 1) if rl else b""
    os.close(r)
    if not rl:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return None if not data else data == b"1"


def f_feasible(g):
    sp = qp.gen_spec(g, interior=not g.boolean(0.2))
    o = qp.gen_opts(g)
    g.note(sizes=sp.sizes, constraints=qp.describe(sp), options=o)
    p, v = qp.build(sp, o)
    ok = qp.solve(p)
    strict = all(np.min(c.A @ sp.xf + c.b) >= 0.015 for c in sp.cons if c.prio == "hard" and c.kind == "ineq")
    if strict:
        check("solvable-problem-refused", ok, lambda: "a well-conditioned strictly feasible problem was not solved")
    if not ok:
        return
    x = qp.values(v)
    check("values-finite", np.all(np.isfinite(x)), f"{x}")
    qp.check_feasible(sp, x)
    binding = any(c.kind == "eq" or np.min(c.A @ x + c.b) < 1e-6 for c in sp.cons if c.prio == "hard")
    g.nt(binding)
    E = qp.hard_eq(sp)[0]
    g.cls(*(["fully-determined"] if E.shape[0] == sp.n else []), *(["hard-eq"] if E.shape[0] else []))
    for c in sp.cons:
        g.cls(f"{c.prio}-{c.form if c.form in ('limit', 'polygon') else c.kind}")


def f_infeasible(g):
    """Contradictory hard constraints (Farkas certificate built in) must raise."""
    infeasible(g, False)


def f_infeasible_kept(g):
    """The same with hard equalities kept in the QP (rewrite_equalities off) or with the smallest regularization, in a child
    process: the QP library itself corrupts memory or cycles for ever on some of these (known findings F1 and F2)."""
    infeasible(g, True)


def infeasible(g, kept):
    sp = qp.gen_spec(g, cmax=4)
    n = sp.n
    mode = g.choice(["ineq", "eq", "eq-ineq", "polygon", "limit"])
    gap = g.flt(0.05, 2.0, 0)
    if mode == "polygon":
        # margin larger than the inradius
        pts = qp.clockwise_polygon(g)
        N, o0 = qp.polygon_rows(pts, 0.0)
        big = 3.0 * max(np.linalg.norm(q - np.mean(pts, axis=0)) for q in pts)
        E, _ = qp.gen_rows(g, 2, n, sp.sizes)
        c = qp.Con("ineq", N @ E, N @ np.zeros(2) + o0 - big, "hard", 1.0, "polygon")
        c.Exy, c.exy, c.poly, c.margin = E, np.zeros(2), pts, big
        sp.cons.append(c)
    elif mode == "limit":
        # |e| below a negative bound, on one row at least
        m = g.choice([1, 1, 2, 3, 4, 6])
        E, _ = qp.gen_rows(g, m, n, sp.sizes)
        tgt = np.array([g.flt(0.5, 5.0, 0) for _ in range(m)])
        tgt[g.integer(0, m - 1)] = -gap
        e0 = -E @ sp.xf
        c = qp.Con("ineq", np.vstack([-E, E]), np.concatenate([tgt - e0, tgt + e0]), "hard", 1.0, "limit")
        c.E, c.e, c.target = E, e0, tgt
        sp.cons.append(c)
    elif mode == "ineq":
        k = g.integer(1, 3)
        A, _ = qp.gen_rows(g, k, n, sp.sizes, True)
        lam = np.array([g.flt(0.2, 2, 0) for _ in range(k)])
        b = -A @ sp.xf + np.array([g.flt(0.05, 1, 0) for _ in range(k)])
        last = -(lam @ A)
        # sum lam_i (A_i x + b_i) + (last x + bl) = -gap < 0
        bl = -(lam @ b) - gap
        rows = np.vstack([A, last])
        bb = np.append(b, bl)
        for i in range(k + 1):
            sp.cons.append(qp.Con("ineq", rows[i:i + 1], bb[i:i + 1], "hard", 1.0, g.choice(["plain", "vec", "levec"])))
    else:
        A, _ = qp.gen_rows(g, 1, n, sp.sizes, True)
        b = -A @ sp.xf
        sp.cons.append(qp.Con("eq", A, b, "hard", 1.0, "plain"))
        if mode == "eq":
            sp.cons.append(qp.Con("eq", 2 * A, 2 * b + gap, "hard", 1.0, "vec"))
        else:
            sp.cons.append(qp.Con("ineq", -A, -b - gap, "hard", 1.0, "plain"))
    # a bounded domain, so that the contradiction is not an artefact of rounding (points at 1e14 "satisfying" it)
    B = g.pos(1.0, 100.0)
    c = qp.Con("ineq", np.vstack([-np.eye(n), np.eye(n)]), np.full(2 * n, B + np.max(np.abs(sp.xf))), "hard", 1.0, "limit")
    c.E, c.e, c.target = np.eye(n), np.zeros(n), np.full(n, B + np.max(np.abs(sp.xf)))
    sp.cons.append(c)
    order = g.shuffle(range(len(sp.cons)))
    o = qp.gen_opts(g)
    has_eq = qp.hard_eq(sp)[0].shape[0] > 0
    if kept:
        if has_eq and g.boolean():
            o["rewrite"] = False
        elif has_eq:
            o["rewrite"] = True
    else:
        o["reg"] = g.choice([1e-2, 1e-3, 1e-4])
        if has_eq:
            o["rewrite"] = True
    g.note(sizes=sp.sizes, constraints=qp.describe(sp), options=o, mode=mode, gap=gap)
    g.nt()
    g.cls(mode, "rewrite" if o["rewrite"] else "no-rewrite")
    if kept:
        r = in_child(lambda: qp.solve(qp.build(sp, o, order)[0]))
        if r is None:
            if has_eq and not o["rewrite"]:
                raise Violation("kept-equalities-crash", "the process died while solving a contradictory problem with rewrite_equalities off")
            raise Violation("flat-objective-hang", "the QP library did not stop on a contradictory problem with a small regularization")
        solved, x = r, "?"
    else:
        p, v = qp.build(sp, o, order)
        solved = qp.solve(p)
        x = qp.values(v) if solved else None
    if solved:
        raise Violation("contradiction-solved", f"mode {mode}: solved with x={x} although the hard constraints contradict each other (gap {gap})")


def f_redundant(g):
    """Dependent (consistent) hard equalities: solved correctly or refused, never silently wrong."""
    sp = qp.gen_spec(g, cmax=3)
    E, b = qp.hard_eq(sp)
    if E.shape[0] == 0:
        A, _ = qp.gen_rows(g, 1, sp.n, sp.sizes, True)
        sp.cons.append(qp.Con("eq", A, -A @ sp.xf, "hard", 1.0, "plain"))
        E, b = qp.hard_eq(sp)
    lam = g.gauss_vec(E.shape[0])
    if np.linalg.norm(lam) < 1e-3:
        lam = np.ones(E.shape[0])
    sp.cons.append(qp.Con("eq", (lam @ E)[None, :], np.array([lam @ b]), "hard", 1.0, g.choice(["plain", "vec"])))
    o = qp.gen_opts(g)
    g.note(sizes=sp.sizes, constraints=qp.describe(sp), options=o)
    p, v = qp.build(sp, o)
    g.nt()
    if qp.solve(p):
        g.cls("solved")
        qp.check_feasible(sp, qp.values(v), tol=2e-4)  # singular: only the solver's own acceptance bound holds
    else:
        g.cls("refused")


def f_sizes(g):
    """Constraints that do not fit the problem must raise at solve."""
    p = placo.Problem()
    n1 = g.integer(1, 4)
    x = p.add_variable(n1)
    p2 = placo.Problem()
    extra = g.integer(1, 4)
    big = p2.add_variable(n1 + extra)
    mode = g.choice(["cols", "empty", "rows"])
    prio = g.choice(["hard", "soft"])
    eq = g.boolean()
    if mode == "cols":
        m = g.integer(1, 3)
        A = g.gauss_mat(m, n1 + extra)
        A[:, -1] = 1.0
        e = big.expr().left_multiply(A) + g.gauss_vec(m)
    elif mode == "empty":
        e = placo.Expression()
    else:
        m = g.integer(1, 3)
        e = x.expr().left_multiply(g.gauss_mat(m, n1)) + g.gauss_vec(m)
    c = (e == e * 0.0) if mode != "empty" else None
    if mode == "empty":
        try:
            c = (e == np.zeros(0)) if eq else (e >= np.zeros(0))
        except Exception:
            g.nt()
            return
    elif mode == "rows":
        # mismatched right-hand sides are refused when the constraint is built
        k = g.choice([m + 1, m + 2, max(2, m - 1)])
        if k == m:
            k = m + 1
        if eq:
            raises("mismatched-rhs", lambda: e == np.ones(k))
        else:
            raises("mismatched-rhs", lambda: e >= np.ones(k))
        raises("mismatched-limit", lambda: p.add_limit(e, np.ones(k)))
        g.nt()
        g.cls("rows")
        return
    else:
        c = (e == np.zeros(m)) if eq else (e >= np.zeros(m))
    # optionally other valid constraints around
    if g.boolean():
        p.add_constraint(x.expr() == np.zeros(n1)).configure("soft", 1.0)
    h = p.add_constraint(c)
    h.configure(prio, 1.0)
    p.rewrite_equalities = g.boolean()
    g.note(mode=mode, prio=prio, equality=eq, n=n1, extra=extra)
    g.nt()
    g.cls(f"{mode}-{prio}-{'eq' if eq else 'ineq'}")
    raises("ill-sized-accepted", p.solve, f"mode {mode} {prio}")


def f_units(g):
    """Rows of hard constraints in different units (metres, millimetres...): the constraints are the same, and so is the outcome."""
    sp = qp.gen_spec(g)
    if not any(c.prio == "hard" and c.form in ("plain", "vec", "expr", "levec") for c in sp.cons):
        raise Discard()
    if any(c.prio == "hard" and c.kind == "ineq" and np.min(c.A @ sp.xf + c.b) < 0.015 for c in sp.cons):
        raise Discard()
    o = qp.gen_opts(g)
    o["rewrite"] = True
    o["reg"] = g.choice([1e-6, 1e-4, 1e-2])
    sc = qp.Spec()
    sc.sizes = sp.sizes
    for c in sp.cons:
        d = c.copy()
        if c.prio == "hard" and c.form in ("plain", "vec", "expr", "levec"):
            w = (10.0 ** np.array([g.flt(-5, 4) for _ in c.b])) if c.kind == "eq" else (10.0 ** np.array([g.flt(-2, 2) for _ in c.b]))
            d.A, d.b = c.A * w[:, None], c.b * w
        sc.cons.append(d)
    g.note(sizes=sp.sizes, constraints=qp.describe(sc), options=o)
    p, v = qp.build(sc, o)
    check("rescaled-problem-refused", qp.solve(p), "a strictly feasible problem was refused once its rows are in other units")
    x = qp.values(v)
    check("values-finite", np.all(np.isfinite(x)), f"{x}")
    # rows are judged in their original units
    qp.check_feasible(sp, x, "rescaled", tol=1e-4)
    p, v = qp.build(sp, o)
    if not qp.solve(p):
        raise Discard()
    close("rescaled-solution", x, qp.values(v), atol=2e-3 * (1 + np.abs(x).max()), msg="same problem in other units")
    g.nt(any(c.kind == "eq" or np.min(c.A @ x + c.b) < 1e-6 for c in sp.cons if c.prio == "hard"))


FACETS = [
    Facet("units", f_units, 2500, 40000, "hard constraints bind, with rows in units from 1e-5 to 1e4"),
    Facet("feasible", f_feasible, 12000, 150000, "at least one hard constraint binds at the solution"),
    Facet("infeasible", f_infeasible, 6000, 80000, "hard constraints contradict each other by a gap of 0.05 or more"),
    Facet("infeasible-kept", f_infeasible_kept, 400, 4000, "hard constraints contradict each other, in the configurations where the QP library is fragile"),
    Facet("redundant", f_redundant, 2000, 30000, "hard equalities are linearly dependent but consistent"),
    Facet("sizes", f_sizes, 1500, 10000, "a constraint does not fit the problem"),
]
