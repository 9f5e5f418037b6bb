"""P02: a solved QP is the optimum of its weighted soft objectives, whatever the options and the order."""
import numpy as np
import placo
from engine import Facet, Violation, Discard, close, check
import qp

RULE = "A case is a random QP solved under several option settings and orderings; it is non-trivial when it has at least one soft objective and a hard or soft inequality, or a soft objective spread over separate columns."


def verify(sp, p, v, order, reg, opt):
    """The solved problem is at its optimum, with the right activity and slacks."""
    x = qp.values(v)
    qp.check_feasible(sp, x)
    r = qp.kkt_residual(sp, x, reg)
    check("not-optimal", r <= 1e-5, lambda: f"{opt}: gradient not balanced by active constraints, relative residual {r:.3g} at x={x}, cost {qp.objective(sp, x, reg):.8g}")
    # reported activity and slacks
    sl = np.asarray(p.slacks, float).reshape(-1)
    k = 0
    flagged = set()
    for i in order:
        c = sp.cons[i]
        val = c.A @ x + c.b
        s = 1e-5 * (1 + np.max(np.abs(val)))
        act = bool(c.handle.is_active)
        if c.kind == "eq":
            check("equality-active", act, opt)
        elif c.prio == "hard":
            if act:
                flagged.add(i)
                check("active-not-tight", np.min(val) <= s, lambda: f"{opt}: hard inequality {i} reported active with rows {val}")
        else:
            m = len(val)
            close("slacks", sl[k:k + m], np.maximum(val, 0), atol=2e-4 / min(1.0, c.w) + s, rtol=1e-4, msg=opt)
            k += m
            if np.min(val) > 1e-3 / min(1.0, c.w):
                check("soft-active-slack", not act, lambda: f"{opt}: soft inequality {i} strictly satisfied {val} but reported active")
            if np.min(val) < -1e-3 / min(1.0, c.w):
                check("soft-inactive-violated", act, lambda: f"{opt}: soft inequality {i} violated {val} but reported inactive")
    check("slack-count", k == len(sl), f"{opt}: {len(sl)} slacks for {k} soft inequality rows")
    r2 = qp.kkt_residual(sp, x, reg, rows=flagged)
    check("inactive-but-pushing", r2 <= 1e-5, lambda: f"{opt}: optimum is not explained by the constraints reported active ({flagged}), residual {r2:.3g}")
    return x


def f_kkt(g):
    sp = qp.gen_spec(g)
    if not any(c.prio == "soft" for c in sp.cons):
        raise Discard()
    reg = g.weighted([(3, 1e-8), (1, 1e-6), (1, 1e-3), (1, 1e-1)])
    g.note(sizes=sp.sizes, constraints=qp.describe(sp), regularization=reg)
    g.nt(any(c.kind == "ineq" for c in sp.cons) or len(sp.cons) > 1)
    xs = []
    order = list(range(len(sp.cons)))
    for sparsity in (False, True):
        for rewrite in (True, False):
            p, v = qp.build(sp, {"sparsity": sparsity, "rewrite": rewrite, "reg": reg}, order)
            opt = f"sparsity={sparsity} rewrite={rewrite} order={order}"
            check("refused", qp.solve(p), opt)
            x = verify(sp, p, v, order, reg, opt)
            xs.append((opt, x, p))
            last = list(order)
            order = g.shuffle(order)
    f0 = [qp.objective(sp, x, reg) for _, x, _ in xs]
    check("option-dependent", max(f0) - min(f0) <= 1e-6 * (1 + max(f0)), lambda: f"costs {f0} for {[o for o, _, _ in xs]}")
    if reg >= 1e-3:
        for o, x, _ in xs[1:]:
            close("option-dependent-x", x, xs[0][1], atol=1e-5, rtol=1e-5, msg=o)
    for c in sp.cons:
        g.cls(f"{c.prio}-{c.form if c.form in ('limit', 'polygon') else c.kind}")
    if g.boolean(0.4):
        resolve(g, sp, p, v, last, reg)


def resolve(g, sp, p, v, order, reg):
    """The same problem, edited and solved again: the optimum and the reports are those of its new content."""
    for _ in range(g.integer(1, 2)):
        for c in sp.cons:
            if c.prio == "soft" and g.boolean(0.5):
                c.w = g.pos(0.05, 50)
                c.handle.configure("soft", c.w)
            elif c.prio == "hard" and c.kind == "ineq" and g.boolean(0.2):
                c.prio, c.w = "soft", g.pos(0.05, 50)
                c.handle.configure("soft", c.w)
        c = qp.gen_con(g, sp, sp.xf, 0, prio="soft")
        qp.make_constraint(p, v, sp.sizes, c)
        order.append(len(sp.cons))
        sp.cons.append(c)
        p.use_sparsity, p.rewrite_equalities = g.boolean(), not g.boolean()
        opt = f"edited, sparsity={p.use_sparsity} rewrite={p.rewrite_equalities}"
        check("refused", qp.solve(p), opt)
        verify(sp, p, v, order, reg, opt)
    g.cls("solved-again")


def f_variables_order(g):
    """Splitting or permuting the variables of the problem permutes the optimum."""
    sp = qp.gen_spec(g, cmax=4)
    n = sp.n
    if not any(c.prio == "soft" for c in sp.cons):
        raise Discard()
    perm = g.shuffle(range(n))
    sizes2 = []
    left = n
    while left:
        k = g.integer(1, min(3, left))
        sizes2.append(k)
        left -= k
    reg = 1e-3
    o = {"sparsity": g.boolean(), "rewrite": not g.boolean(), "reg": reg}
    p, v = qp.build(sp, o)
    check("refused", qp.solve(p), "original")
    x = qp.values(v)
    sp2 = qp.Spec()
    sp2.sizes = sizes2
    for c in sp.cons:
        c2 = c.copy()
        c2.A = c.A[:, perm]
        for a in ("E", "Exy"):
            if hasattr(c2, a):
                setattr(c2, a, getattr(c, a)[:, perm])
        sp2.cons.append(c2)
    p2, v2 = qp.build(sp2, o)
    g.note(sizes=sp.sizes, sizes2=sizes2, perm=perm, constraints=qp.describe(sp), options=o)
    g.nt(perm != list(range(n)))
    check("refused", qp.solve(p2), "permuted")
    close("variable-order", qp.values(v2), x[perm], atol=1e-5, rtol=1e-5)


def f_weights(g):
    """Scaling all the weights and the regularization changes nothing; a doubled constraint equals a doubled weight."""
    sp = qp.gen_spec(g, cmax=4)
    soft = [c for c in sp.cons if c.prio == "soft"]
    if not soft:
        raise Discard()
    reg = 1e-3
    o = {"sparsity": g.boolean(), "rewrite": not g.boolean(), "reg": reg}
    p, v = qp.build(sp, o)
    check("refused", qp.solve(p))
    x = qp.values(v)
    k = g.pos(0.1, 10)
    sp2 = qp.Spec()
    sp2.sizes = sp.sizes
    for c in sp.cons:
        c2 = c.copy()
        if c.prio == "soft":
            c2.w = c.w * k
        sp2.cons.append(c2)
    p2, v2 = qp.build(sp2, {**o, "reg": reg * k})
    check("refused", qp.solve(p2))
    g.note(sizes=sp.sizes, constraints=qp.describe(sp), factor=k)
    g.nt()
    close("weight-scale", qp.values(v2), x, atol=1e-5, rtol=1e-5)
    # duplicate
    i = g.integer(0, len(soft) - 1)
    sp3 = qp.Spec()
    sp3.sizes = sp.sizes
    sp3.cons = [c.copy() for c in sp.cons] + [soft[i].copy()]
    p3, v3 = qp.build(sp3, o)
    check("refused", qp.solve(p3))
    w = soft[i].w
    soft[i].handle.configure("soft", 2 * w)
    check("refused", qp.solve(p))
    close("weight-duplicate", qp.values(v), qp.values(v3), atol=1e-5, rtol=1e-5)


def f_sparsity(g):
    """Column intervals: the union of intervals is the union of the sets, and detection finds exactly the non-zero columns."""
    s = placo.Sparsity()
    s2 = placo.Sparsity()
    ref, ref2 = set(), set()
    ivs = []
    for _ in range(g.integer(1, 8)):
        a = g.integer(0, 15)
        b = a + g.small(0, 8)
        second = g.boolean(0.3)
        (s2 if second else s).add_interval(a, b)
        (ref2 if second else ref).update(range(a, b + 1))
        ivs.append((a, b, second))
    g.note(intervals=ivs)
    g.nt(len(ivs) > 2)
    for sp, rf in ((s, ref), (s2, ref2), (s + s2, ref | ref2)):
        iv = np.asarray(sp.intervals).reshape(-1, 2)
        got = set()
        last = -2
        for a, b in iv:
            check("interval-order", a <= b and a > last, lambda: f"{iv.tolist()} for {ivs}")
            last = b
            got.update(range(int(a), int(b) + 1))
        check("interval-union", got == rf, lambda: f"{iv.tolist()} covers {sorted(got)} instead of {sorted(rf)} for {ivs}")
    n, m = g.integer(1, 12), g.integer(2, 4)
    keep = [g.boolean(0.6) for _ in range(n)]
    M = (np.abs(g.gauss_mat(m, n)) + 0.1) * np.array(keep, float)
    if g.boolean(0.5):  # only one row non zero
        R = np.zeros_like(M)
        r = g.integer(0, m - 1)
        R[r] = M[r]
        M = R
    iv = np.asarray(placo.Sparsity.detect_columns_sparsity(np.asfortranarray(M)).intervals).reshape(-1, 2)
    got = set()
    for a, b in iv:
        got.update(range(int(a), int(b) + 1))
    check("detection", got == {k for k in range(n) if keep[k]}, lambda: f"{iv.tolist()} for columns {keep}")


FACETS = [
    Facet("kkt", f_kkt, 4000, 60000, "the problem has a soft objective and an inequality, or several constraints"),
    Facet("variables", f_variables_order, 2500, 40000, "the permutation is not the identity"),
    Facet("weights", f_weights, 2000, 30000, "the problem has a soft constraint"),
    Facet("sparsity", f_sparsity, 4000, 60000, "more than two intervals"),
]
