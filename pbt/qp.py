"""Random QP problems: a numpy description, its translation to a placo Problem, and an independent optimality oracle."""
import numpy as np
import placo
from scipy.optimize import nnls
from engine import Gen, Violation, Discard, close, check


def mat(e):
    """A matrix of an Expression as a 2D array (eigenpy flattens one-row matrices)."""
    return np.asarray(e.A, float).reshape(e.rows(), e.cols())


class Con:
    """A x + b == 0 or A x + b >= 0, in full coordinates."""

    def __init__(self, kind, A, b, prio="hard", w=1.0, form="plain"):
        self.kind, self.A, self.b, self.prio, self.w, self.form = kind, A, b, prio, w, form
        self.handle = None

    def copy(self):
        c = Con(self.kind, self.A, self.b, self.prio, self.w, self.form)
        for k in ("E", "e", "target", "poly", "margin", "Exy", "exy"):
            if hasattr(self, k):
                setattr(c, k, getattr(self, k))
        return c


def gen_rows(g, m, n, sizes, dense=None):
    """An m x n matrix touching a random set of column blocks."""
    A = g.gauss_mat(m, n)
    kind = g.weighted([(3, "dense"), (3, "cols"), (2, "block"), (1, "unit")]) if dense is None else ("dense" if dense else "cols")
    if kind == "cols":
        keep = np.array([g.boolean(0.6) for _ in range(n)])
        if not keep.any():
            keep[g.integer(0, n - 1)] = True
        A = A * keep
    elif kind == "block":
        k = g.integer(0, len(sizes) - 1)
        s = sum(sizes[:k])
        M = np.zeros_like(A)
        M[:, s:s + sizes[k]] = A[:, s:s + sizes[k]]
        A = M
    elif kind == "unit":
        A = np.zeros((m, n))
        for i in range(m):
            A[i, g.integer(0, n - 1)] = g.choice([1.0, -1.0, 2.0])
    return A, kind


def expr_of(vars_, sizes, A, b, style=0):
    """The placo expression A x + b assembled from the variables (unused variables are left out)."""
    e = None
    s = 0
    for v, k in zip(vars_, sizes):
        blk = A[:, s:s + k]
        s += k
        if not np.any(blk):
            continue
        if style == 1 and k > 1:
            t = v.expr(0, 1).left_multiply(blk[:, :1]) + v.expr(1, k - 1).left_multiply(blk[:, 1:])
        else:
            t = v.expr().left_multiply(np.ascontiguousarray(blk))
        e = t if e is None else e + t
    if e is None:
        e = vars_[0].expr().left_multiply(np.zeros((A.shape[0], sizes[0])))
    return e + np.asarray(b, float)


def make_constraint(p, vars_, sizes, c):
    """Adds constraint c to the placo problem p and returns the placo constraint."""
    f = c.form
    if f == "limit":
        h = p.add_limit(expr_of(vars_, sizes, c.E, c.e), c.target)
    elif f == "polygon":
        exy = expr_of(vars_, sizes, c.Exy, c.exy)
        pts = [np.array(q) for q in c.poly]
        h = p.add_constraint(placo.PolygonConstraint.in_polygon_xy(exy, pts, c.margin))
    else:
        m = c.A.shape[0]
        if c.kind == "eq":
            if f == "vec":
                h = p.add_constraint(expr_of(vars_, sizes, c.A, np.zeros(m)) == -c.b)
            elif f == "expr":
                h = p.add_constraint(expr_of(vars_, sizes, 0.5 * c.A, c.b, 1) == expr_of(vars_, sizes, -0.5 * c.A, np.zeros(m)))
            else:
                h = p.add_constraint(expr_of(vars_, sizes, c.A, c.b) == 0.0)
        else:
            if f == "vec":
                h = p.add_constraint(expr_of(vars_, sizes, c.A, np.zeros(m)) >= -c.b)
            elif f == "expr":
                h = p.add_constraint(expr_of(vars_, sizes, -0.5 * c.A, -c.b, 1) <= expr_of(vars_, sizes, 0.5 * c.A, np.zeros(m)))
            elif f == "levec":
                h = p.add_constraint(expr_of(vars_, sizes, -c.A, np.zeros(m)) <= c.b)
            else:
                h = p.add_constraint(expr_of(vars_, sizes, c.A, c.b) >= 0.0)
    if c.prio != "hard" or c.w != 1.0:
        h.configure(c.prio, c.w)
    c.handle = h
    return h


def clockwise_polygon(g, nmax=6, scale=1.0):
    """A random convex polygon, clockwise."""
    k = g.integer(3, nmax)
    cx, cy = g.flt(-2, 2), g.flt(-2, 2)
    rx, ry = g.pos(0.2, 2) * scale, g.pos(0.2, 2) * scale
    ph = g.flt(0, 6.28)
    th = g.flt(-3, 3)
    pts = []
    for i in range(k):
        a = -2 * np.pi * (i + g.flt(-0.3, 0.3)) / k + ph
        q = np.array([rx * np.cos(a), ry * np.sin(a)])
        R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
        pts.append(R @ q + np.array([cx, cy]))
    return pts


def polygon_rows(pts, margin):
    """Half-planes of a clockwise polygon from its definition: signed distance to each edge >= margin."""
    N, o = [], []
    c = np.mean(pts, axis=0)
    for i in range(len(pts)):
        a, b = pts[i], pts[(i + 1) % len(pts)]
        d = (b - a) / np.linalg.norm(b - a)
        n = np.array([d[1], -d[0]])
        if n @ (c - a) < 0:  # inside is where the centroid is
            n = -n
        N.append(n)
        o.append(-n @ a - margin)
    return np.array(N), np.array(o)


class Spec:
    def __init__(self):
        self.sizes, self.cons = [], []

    @property
    def n(self):
        return sum(self.sizes)


def gen_sizes(g, nmin=2, nmax=8):
    sizes = []
    for _ in range(g.integer(1, 4)):
        sizes.append(g.integer(1, 4))
    while sum(sizes) > nmax and len(sizes) > 1:
        sizes.pop()
    while sum(sizes) < nmin:
        sizes.append(1)
    return sizes


def gen_con(g, sp, xf, hard_eq_budget, kinds=("eq", "ineq", "limit", "polygon"), prio=None, interior=True, wlo=0.05, whi=50.0):
    """A random constraint; hard ones are satisfied by xf."""
    n = sp.n
    prio = prio or ("hard" if g.boolean(0.45) else "soft")
    kind = g.choice(kinds)
    w = 1.0 if prio == "hard" or g.boolean(0.3) else g.pos(wlo, whi)
    if kind == "eq":
        m = g.integer(1, 3)
        if prio == "hard":
            m = min(m, hard_eq_budget)
            if m < 1:
                prio, m = "soft", 1
        A, _ = gen_rows(g, m, n, sp.sizes)
        b = -A @ xf if prio == "hard" else g.gauss_vec(m)
        c = Con("eq", A, b, prio, w, g.choice(["plain", "vec", "expr"]))
    elif kind == "ineq":
        m = g.integer(1, 3)
        A, _ = gen_rows(g, m, n, sp.sizes)
        if prio == "hard":
            sl = np.array([g.flt(0.02, 1.0, 0) for _ in range(m)]) if interior else np.array([g.flt(0, 1.0, 0.4) for _ in range(m)])
            b = -A @ xf + sl
        else:
            b = g.gauss_vec(m)
        c = Con("ineq", A, b, prio, w, g.choice(["plain", "vec", "expr", "levec"]))
    elif kind == "limit":
        m = g.integer(1, 3)
        E, _ = gen_rows(g, m, n, sp.sizes)
        e = g.gauss_vec(m)
        v = E @ xf + e
        target = np.abs(v) + np.array([g.flt(0.02, 1.0, 0) for _ in range(m)]) if prio == "hard" else np.array([g.flt(0.02, 1.0, 0) for _ in range(m)])
        c = Con("ineq", np.vstack([-E, E]), np.concatenate([target - e, target + e]), prio, w, "limit")
        c.E, c.e, c.target = E, e, target
    else:
        E, _ = gen_rows(g, 2, n, sp.sizes)
        pts = clockwise_polygon(g)
        N, o = polygon_rows(pts, 0.0)
        cen = np.mean(pts, axis=0)
        margin = g.flt(-0.3, 0.8) * float(np.min(N @ cen + o))
        N, o = polygon_rows(pts, margin)
        e = cen - E @ xf if prio == "hard" else g.gauss_vec(2)
        c = Con("ineq", N @ E, N @ e + o, prio, w, "polygon")
        c.Exy, c.exy, c.poly, c.margin = E, e, pts, margin
    return c


def gen_spec(g, nmax=8, cmax=6, interior=True, objective=True):
    sp = Spec()
    sp.sizes = gen_sizes(g, 2, nmax)
    if nmax >= 8 and g.boolean(0.06):  # larger problems
        sp.sizes = [g.integer(1, 6) for _ in range(g.integer(3, 6))]
        cmax += 4
    n = sp.n
    xf = g.gauss_vec(n) * g.weighted([(6, 1.0), (1, 1e-3), (1, 10.0)])
    budget = n
    if g.boolean(0.7):
        budget = max(0, n - 1)
    if objective and g.boolean(0.8):
        m = g.integer(1, n)
        A, _ = gen_rows(g, m, n, sp.sizes)
        sp.cons.append(Con("eq", A, g.gauss_vec(m) * 2, "soft", g.pos(0.1, 10), g.choice(["plain", "vec", "expr"])))
    for _ in range(g.integer(1, cmax)):
        c = gen_con(g, sp, xf, budget, interior=interior)
        if c.kind == "eq" and c.prio == "hard":
            budget -= c.A.shape[0]
        sp.cons.append(c)
    E = hard_eq(sp)[0]
    if E.shape[0]:
        s = np.linalg.svd(E, compute_uv=False)
        if E.shape[0] > n or s[-1] < 0.08 * max(1.0, s[0]) * 0.5:
            raise Discard()
    sp.xf = xf
    return sp


def hard_eq(sp):
    rows = [c for c in sp.cons if c.kind == "eq" and c.prio == "hard"]
    if not rows:
        return np.zeros((0, sp.n)), np.zeros(0)
    return np.vstack([c.A for c in rows]), np.concatenate([c.b for c in rows])


def build(sp, opts=None, order=None):
    p = placo.Problem()
    vars_ = [p.add_variable(k) for k in sp.sizes]
    cons = sp.cons if order is None else [sp.cons[i] for i in order]
    for c in cons:
        make_constraint(p, vars_, sp.sizes, c)
    if opts:
        set_opts(p, opts)
    return p, vars_


def set_opts(p, opts):
    p.use_sparsity = bool(opts.get("sparsity", False))
    p.rewrite_equalities = bool(opts.get("rewrite", True))
    if "reg" in opts:
        p.regularization = opts["reg"]


def gen_opts(g):
    o = {"sparsity": g.boolean(), "rewrite": not g.boolean()}
    if g.boolean(0.3):
        o["reg"] = g.choice([1e-8, 1e-6, 1e-4, 1e-2])
    return o


def values(vars_):
    return np.concatenate([np.atleast_1d(np.asarray(v.value, float)).reshape(-1) for v in vars_])


def solve(p):
    """True when solved, False when it raised."""
    try:
        p.solve()
        return True
    except Exception:
        return False


def check_feasible(sp, x, tag="feasible", tol=1e-5):
    for k, c in enumerate(sp.cons):
        if c.prio != "hard":
            continue
        r = c.A @ x + c.b
        s = 1.0 + np.max(np.abs(c.A) @ np.abs(x)) + np.max(np.abs(c.b))
        if c.kind == "eq":
            check(tag + "-equality", np.max(np.abs(r)) <= tol * s, lambda: f"hard equality {k} ({c.form}) residual {r} at x={x}")
        else:
            check(tag + "-inequality", np.min(r) >= -tol * s, lambda: f"hard inequality {k} ({c.form}) violated {r} at x={x}")


def objective(sp, x, reg=1e-8):
    f = 0.5 * reg * float(x @ x)
    for c in sp.cons:
        if c.prio == "hard":
            continue
        r = c.A @ x + c.b
        if c.kind == "ineq":
            r = np.minimum(r, 0)
        f += 0.5 * c.w * float(r @ r)
    return f


def gradient(sp, x, reg=1e-8):
    gr = reg * x
    scale = 1e-12 + reg
    for c in sp.cons:
        if c.prio == "hard":
            continue
        r = c.A @ x + c.b
        if c.kind == "ineq":
            r = np.minimum(r, 0)
        gr = gr + c.w * (c.A.T @ r)
        scale += c.w * float(np.max(np.abs(c.A)) ** 2)
    return gr, scale


def kkt_residual(sp, x, reg=1e-8, rows=None, act_tol=1e-5):
    """Distance of the objective's gradient to the cone of the hard constraints active at x, relative to the objective's scale."""
    gr, scale = gradient(sp, x, reg)
    scale = max(scale, float(np.linalg.norm(gr)))
    E, _ = hard_eq(sp)
    cols = [E.T, -E.T] if E.shape[0] else []
    for i, c in enumerate(sp.cons):
        if c.prio == "hard" and c.kind == "ineq" and (rows is None or i in rows):
            r = c.A @ x + c.b
            s = 1.0 + np.max(np.abs(c.A) @ np.abs(x))
            a = r <= act_tol * s
            if a.any():
                cols.append(c.A[a].T)
    if not cols:
        return float(np.linalg.norm(gr)) / scale
    M = np.hstack(cols)
    nn = np.linalg.norm(M, axis=0)
    M = M[:, nn > 1e-9] / nn[nn > 1e-9]
    if M.shape[1] == 0:
        return float(np.linalg.norm(gr)) / scale
    try:
        _, res = nnls(M, gr, maxiter=50 * (M.shape[1] + 5))
    except Exception:
        lam = np.linalg.lstsq(M, gr, rcond=None)[0]
        res = np.linalg.norm(M @ np.maximum(lam, 0) - gr)
    return float(res) / scale


def describe(sp):
    return [f"{c.prio} {c.kind}/{c.form} {c.A.shape[0]}x{c.A.shape[1]} w={c.w:.3g}" for c in sp.cons]
