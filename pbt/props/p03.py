"""P03: expression arithmetic is exact affine arithmetic."""
import numpy as np
import placo
from engine import Facet, Violation, Discard, close, check, raises
import qp

RULE = "A case is a random program of expression operations evaluated next to numpy on the operands' values; non-trivial when it combines at least three operations on expressions that depend on variables."
K = 3  # assignments per case


class E:
    """An expression and its value at K assignments."""

    def __init__(self, e, val, const):
        self.e, self.val, self.const = e, val, const

    @property
    def rows(self):
        return self.val.shape[1]


def env(g):
    p = placo.Problem()
    sizes = qp.gen_sizes(g, 1, 9)
    vs = [p.add_variable(k) for k in sizes]
    n = sum(sizes)
    X = [g.gauss_vec(n, 2.0) for _ in range(K)]
    off = np.cumsum([0] + sizes)
    return p, vs, sizes, off, X


def leaf(g, vs, sizes, off, X):
    kind = g.weighted([(5, "var"), (3, "slice"), (2, "const"), (1, "scalar")])
    if kind in ("var", "slice"):
        i = g.integer(0, len(vs) - 1)
        if kind == "var":
            return E(vs[i].expr(), np.array([x[off[i]:off[i + 1]] for x in X]), False), kind
        s = g.integer(0, sizes[i] - 1)
        if g.boolean(0.3):
            return E(vs[i].expr(s), np.array([x[off[i] + s:off[i + 1]] for x in X]), False), kind
        r = g.integer(1, sizes[i] - s)
        return E(vs[i].expr(s, r), np.array([x[off[i] + s:off[i] + s + r] for x in X]), False), kind
    if kind == "const":
        v = g.gauss_vec(g.integer(1, 4), 2.0)
        return E(placo.Expression.from_vector(v), np.array([v] * K), True), kind
    d = g.flt(-3, 3)
    return E(placo.Expression.from_double(d), np.full((K, 1), d), True), kind


UN = ["neg", "scale", "rscale", "add_f", "radd_f", "sub_f", "rsub_f", "piecewise", "matmul", "rmatmul", "slice", "slice2", "sum", "mean", "add_v", "sub_v", "radd_v", "rsub_v"]
BI = ["add", "sub", "stack", "mul"]


def unary(g, a):
    op = g.choice(UN)
    e, v, r = a.e, a.val, a.rows
    f = g.flt(-3, 3)
    const = a.const
    if op == "neg":
        return E(-e, -v, const), op
    if op == "scale":
        return E(e * f, v * f, const), op
    if op == "rscale":
        return E(f * e, v * f, const), op
    if op == "add_f":
        return E(e + f, v + f, const), op
    if op == "radd_f":
        return E(f + e, v + f, const), op
    if op == "sub_f":
        return E(e - f, v - f, const), op
    if op == "rsub_f":
        return E(f - e, f - v, const), op
    if op == "piecewise":
        return E(e.piecewise_add(f), v + f, const), op
    if op in ("matmul", "rmatmul"):
        m = g.integer(1, 4)
        M = g.gauss_mat(m, r)
        return E(e.left_multiply(M) if op == "matmul" else e.__rmul__(M), v @ M.T, const), op
    if op == "slice":
        s = g.integer(0, r - 1)
        k = g.integer(1, r - s)
        return E(e.slice(s, k), v[:, s:s + k], const), op
    if op == "slice2":
        s = g.integer(0, r - 1)
        return E(e.slice(s, -1), v[:, s:], const), op
    if op == "sum":
        return E(e.sum(), v.sum(axis=1, keepdims=True), const), op
    if op == "mean":
        return E(e.mean(), v.mean(axis=1, keepdims=True), const), op
    w = g.gauss_vec(r)
    if op == "add_v":
        return E(e + w, v + w, const), op
    if op == "sub_v":
        return E(e - w, v - w, const), op
    if op == "radd_v":
        return E(e.__radd__(w), v + w, const), op
    return E(e.__rsub__(w), w - v, const), op


def binary(g, a, b):
    op = g.choice(BI)
    if op == "stack":
        return E(a.e / b.e, np.hstack([a.val, b.val]), a.const and b.const), op
    if op in ("add", "sub"):
        bcast = (a.rows == 1 and a.const) or (b.rows == 1 and b.const)
        if a.rows != b.rows and not bcast:
            if op == "add":
                raises("mismatched-add", lambda: a.e + b.e)
            else:
                raises("mismatched-sub", lambda: a.e - b.e)
            k = min(a.rows, b.rows)
            a = E(a.e.slice(0, k), a.val[:, :k], a.const)
            b = E(b.e.slice(0, k), b.val[:, :k], b.const)
        if op == "add":
            return E(a.e + b.e, a.val + b.val, a.const and b.const), op
        return E(a.e - b.e, a.val - b.val, a.const and b.const), op
    ok = (a.rows == 1 and b.const) or (b.rows == 1 and a.const)
    if not ok:
        raises("mul-not-affine", lambda: a.e * b.e)
        return E(a.e, a.val, a.const), "mul-refused"
    return E(a.e * b.e, a.val * b.val, a.const and b.const), op


def verify(a, X, what):
    e = a.e
    check("rows", e.rows() == a.rows and len(e) == a.rows, lambda: f"{what}: {e.rows()} rows instead of {a.rows}")
    check("is_scalar", e.is_scalar() == (a.rows == 1), what)
    if a.const:
        check("is_constant", e.is_constant() or not np.any(qp.mat(e)), what)
    n = len(X[0])
    check("cols", e.cols() <= n, what)
    for k, x in enumerate(X):
        close("value", np.atleast_1d(e.value(x)), a.val[k], atol=1e-9, rtol=1e-9, msg=what)
        A = qp.mat(e)
        close("A-b", A @ x[:e.cols()] + np.atleast_1d(e.b), a.val[k], atol=1e-9, rtol=1e-9, msg=what)


def program(g, steps):
    p, vs, sizes, off, X = env(g)
    pool, ops = [], []
    for _ in range(g.integer(1, 3)):
        a, k = leaf(g, vs, sizes, off, X)
        pool.append(a)
        ops.append(k)
    for _ in range(steps):
        if g.boolean(0.4):
            b, k = leaf(g, vs, sizes, off, X)
            pool.append(b)
        a = pool[g.integer(0, len(pool) - 1)]
        if g.boolean(0.55):
            r, op = unary(g, a)
        else:
            b = pool[g.integer(0, len(pool) - 1)]
            r, op = binary(g, a, b)
        ops.append(op)
        if r.rows > 12 or np.max(np.abs(r.val)) > 1e6:
            continue
        pool.append(r)
        verify(r, X, f"after {ops}")
    return p, vs, sizes, X, pool, ops


def f_program(g):
    p, vs, sizes, X, pool, ops = program(g, g.integer(1, 10))
    g.note(sizes=sizes, ops=ops)
    g.nt(len([o for o in ops if o not in ("var", "slice", "const", "scalar")]) >= 3 and any(not a.const for a in pool))
    g.cls(*ops)
    # operands are not modified by the operations made on them
    for a in pool:
        verify(a, X, f"operand after {ops}")


def f_compare(g):
    """A comparison gives a constraint met by exactly the assignments for which it holds: projection onto it."""
    p, vs, sizes, X, pool, ops = program(g, g.integer(0, 4))
    cands = [a for a in pool if not a.const]
    if not cands:
        raise Discard()
    a = cands[g.integer(0, len(cands) - 1)]
    if a.rows > 4:
        a = E(a.e.slice(0, 4), a.val[:, :4], False)
    rel = g.choice(["<=", ">=", "=="])
    side = g.choice(["expr", "vec", "float", "rvec", "rfloat", "rexpr"])
    n = sum(sizes)
    # numpy description of both sides, from evaluations only
    def lin(e):
        b = np.atleast_1d(e.value(np.zeros(n)))
        A = np.array([np.atleast_1d(e.value(np.eye(n)[i])) - b for i in range(n)]).T
        return A, b
    Aa, ba = lin(a.e)
    if side in ("expr", "rexpr"):
        bs = [c for c in pool if c.rows == a.rows or (c.rows == 1 and c.const)] or [E(a.e * 0.0, a.val * 0.0, False)]
        b = bs[g.integer(0, len(bs) - 1)]
        rhs = b.e
        Ab, bb = lin(rhs)
        if Ab.shape[0] == 1 and a.rows > 1:
            Ab, bb = np.repeat(Ab, a.rows, 0), np.repeat(bb, a.rows)
    elif side in ("vec", "rvec"):
        rhs = g.gauss_vec(a.rows, 2.0)
        Ab, bb = np.zeros_like(Aa), rhs
    else:
        rhs = g.flt(-2, 2)
        Ab, bb = np.zeros_like(Aa), np.full(a.rows, rhs)
    e = a.e
    if side == "expr":
        c = {"<=": lambda: e <= rhs, ">=": lambda: e >= rhs, "==": lambda: e == rhs}[rel]()
    elif side == "rexpr":
        c = {"<=": lambda: rhs >= e, ">=": lambda: rhs <= e, "==": lambda: rhs == e}[rel]()
    elif side == "vec":
        c = {"<=": lambda: e <= rhs, ">=": lambda: e >= rhs, "==": lambda: e == rhs}[rel]()
    elif side == "float":
        c = {"<=": lambda: e <= rhs, ">=": lambda: e >= rhs, "==": lambda: e == rhs}[rel]()
    elif side == "rvec":
        c = {"<=": lambda: e.__le__(rhs), ">=": lambda: e.__ge__(rhs), "==": lambda: e.__eq__(rhs)}[rel]()
    else:
        c = {"<=": lambda: rhs >= e, ">=": lambda: rhs <= e, "==": lambda: rhs == e}[rel]()
    # left - right in the direction "must be >= 0"
    A, b = Aa - Ab, ba - bb
    if rel == "<=":
        A, b = -A, -b
    sp = qp.Spec()
    sp.sizes = sizes
    x0 = X[0]
    sp.cons = [qp.Con("eq" if rel == "==" else "ineq", A, b, "hard"), qp.Con("eq", np.eye(n), -x0, "soft")]
    s = np.linalg.svd(A, compute_uv=False)
    if A.shape[0] > n or s[-1] < 1e-2 * max(1.0, s[0]):
        raise Discard()
    p.add_constraint(c)
    for v, k, o in zip(vs, sizes, np.cumsum([0] + sizes)):
        p.add_constraint(v.expr() == x0[o:o + k]).configure("soft", 1.0)
    g.note(sizes=sizes, ops=ops, relation=rel, side=side)
    g.cls(rel + side)
    val = A @ x0 + b
    holds = np.all(val >= 0) if rel != "==" else np.all(np.abs(val) < 1e-12)
    g.nt()
    g.cls("holds" if holds else "binds")
    p.solve()
    x = qp.values(vs)
    qp.check_feasible(sp, x, "comparison")
    if holds:
        close("comparison-not-needed", x, x0, atol=1e-6)
    r = qp.kkt_residual(sp, x)
    check("comparison-projection", r < 1e-5, lambda: f"{rel} {side}: x={x} is not the closest point to {x0} meeting the comparison ({r:.3g})")


def f_mismatch(g):
    """Operations on incompatible sizes raise."""
    p, vs, sizes, off, X = env(g)
    i = g.integer(0, len(vs) - 1)
    e = vs[i].expr()
    r = sizes[i]
    k = g.choice([q for q in range(1, 8) if q != r])
    v = g.gauss_vec(k) + 1.0
    op = g.choice(["add", "sub", "radd", "rsub", "matmul", "slice", "slice-neg", "value", "var", "var-start", "eq", "le", "ge", "expr"])
    g.note(op=op, rows=r, other=k)
    g.cls(op)
    g.nt()
    if op in ("eq", "le", "ge") and k == 1:
        return  # a one-row constant is broadcast
    n = vs[i].k_end
    fn = {
        "add": lambda: e + v, "sub": lambda: e - v, "radd": lambda: e.__radd__(v), "rsub": lambda: e.__rsub__(v),
        "matmul": lambda: e.left_multiply(np.ones((2, k)) * 1.5),
        "slice": lambda: e.slice(g.integer(0, r), r + 1), "slice-neg": lambda: e.slice(-1 - g.integer(0, 2), 1),
        "value": lambda: e.value(np.ones(max(0, n - 1 - g.integer(0, 1)))),
        "var": lambda: vs[i].expr(g.integer(0, r), r + 1), "var-start": lambda: vs[i].expr(r + g.integer(0, 2), 1),
        "eq": lambda: e == v, "le": lambda: e <= v, "ge": lambda: e >= v,
        "expr": lambda: e / e + e,
    }[op]
    raises("mismatch-" + op, fn, f"rows {r} other {k}")


FACETS = [
    Facet("program", f_program, 8000, 120000, "three or more operations with variable-dependent expressions"),
    Facet("compare", f_compare, 4000, 60000, "a comparison of a variable-dependent expression with any kind of right-hand side"),
    Facet("mismatch", f_mismatch, 3000, 20000, "operands of incompatible sizes"),
]
