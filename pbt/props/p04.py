"""P04: a polygon constraint is met exactly by points inside the shrunk polygon."""
import numpy as np
import placo
from engine import Facet, Violation, Discard, close, check, raises
import qp

RULE = "A case is a convex clockwise polygon, a margin, an affine point expression and a desired point; non-trivial when the desired point is outside of the shrunk polygon or within 10% of an edge."


def inside(pts, P, margin):
    """Independent signed measure: >0 inside. Min over edges of the distance to the supporting line, minus the margin."""
    d = []
    for i in range(len(pts)):
        a, b = pts[i], pts[(i + 1) % len(pts)]
        u = b - a
        cross = u[0] * (P[1] - a[1]) - u[1] * (P[0] - a[0])
        d.append(-cross / np.hypot(*u) - margin)  # clockwise: inside is on the right
    return min(d)


def setup(g, small=True):
    scale = g.weighted([(3, 1.0), (1, 0.2), (1, 0.04)]) if small else 1.0
    pts = qp.clockwise_polygon(g, 8, scale)
    if small and g.boolean(0.25):  # a corner is cut: one edge is much shorter than the others
        k, e = g.integer(0, len(pts) - 1), g.pos(0.01, 0.1)
        P, a, b = pts[k], pts[k - 1], pts[(k + 1) % len(pts)]
        pts[k:k + 1] = [P + e * (a - P), P + e * (b - P)]
    cen = np.mean(pts, axis=0)
    inr = inside(pts, cen, 0.0)
    p = placo.Problem()
    sizes = qp.gen_sizes(g, 2, 5)
    vs = [p.add_variable(k) for k in sizes]
    n = sum(sizes)
    if g.boolean(0.4):
        A = np.zeros((2, n))
        i = g.integer(0, n - 2)
        A[0, i], A[1, i + 1] = 1, 1
        b = np.zeros(2)
    else:
        A, b = g.gauss_mat(2, n), g.gauss_vec(2)
        s = np.linalg.svd(A, compute_uv=False)
        if s[-1] < 0.4:
            raise Discard()
    if n > 2:
        p.regularization = 1e-6  # directions that do not move the point must stay well conditioned
    return p, vs, sizes, n, pts, cen, inr, A, b


def constrain(g, vs, sizes, A, b, pts, margin):
    pl = [np.array(q) for q in pts]
    if g.boolean():
        return placo.PolygonConstraint.in_polygon_xy(qp.expr_of(vs, sizes, A, b), pl, margin), "xy"
    ex = qp.expr_of(vs, sizes, A[:1], b[:1])
    ey = qp.expr_of(vs, sizes, A[1:], b[1:])
    return placo.PolygonConstraint.in_polygon(ex, ey, pl, margin), "x,y"


def f_project(g):
    p, vs, sizes, n, pts, cen, inr, A, b = setup(g)
    margin = g.flt(-0.5, 0.9) * inr
    c, form = constrain(g, vs, sizes, A, b, pts, margin)
    p.add_constraint(c)
    # desired point: anywhere around
    k = g.integer(0, len(pts) - 1)
    P = cen + (g.gauss_vec(2, g.choice([1.0, 2 * inr])) if g.boolean(0.5) else (pts[k] - cen) * g.flt(0.3, 1.6, 0.2)) * 1.0
    p.add_constraint(qp.expr_of(vs, sizes, A, b) == P).configure("soft", 1.0)
    d = inside(pts, P, margin)
    g.note(polygon=np.array(pts).tolist(), margin=margin, desired=P, form=form)
    g.nt(d < 0.1 * inr)
    g.cls(form, "outside" if d < 0 else "inside", f"{len(pts)}-gon", "negative-margin" if margin < 0 else "margin")
    p.rewrite_equalities = g.boolean()
    p.solve()
    Q = A @ qp.values(vs) + b
    check("point-outside", inside(pts, Q, margin) >= -1e-6, lambda: f"{form}: point {Q} is {inside(pts, Q, margin)} outside of the shrunk polygon")
    if d >= 0:
        close("inside-point-moved", Q, P, atol=1e-4, msg=form)
    else:
        # closest point: for each direction in the feasible set the distance does not decrease (normal cone test on samples)
        N, o = qp.polygon_rows(pts, margin)
        act = np.abs(N @ Q + o) < 1e-5
        check("not-on-border", act.any(), f"{form}: desired outside, result strictly inside")
        from scipy.optimize import nnls
        _, r = nnls(N[act].T, Q - P)
        check("not-closest", r <= 3e-4 * (1 + np.linalg.norm(Q - P)), f"{form}: {Q} is not the closest admissible point to {P} (residual {r})")


def f_membership(g):
    """The constraint value rows: a fixed point is admitted exactly when it is inside."""
    p, vs, sizes, n, pts, cen, inr, A, b = setup(g)
    margin = g.flt(-0.5, 0.9) * inr
    c, form = constrain(g, vs, sizes, A, b, pts, margin)
    k = g.integer(0, len(pts) - 1)
    t = g.flt(0, 1)
    E = pts[k] * (1 - t) + pts[(k + 1) % len(pts)] * t
    P = cen + (E - cen) * g.flt(0.0, 1.7, 0.1)
    d = inside(pts, P, margin)
    if abs(d) < 1e-3:
        raise Discard()
    x0 = np.linalg.pinv(A) @ (P - b)
    p.add_constraint(c)
    p.add_constraint(qp.expr_of(vs, sizes, A, b) == P)
    g.note(polygon=np.array(pts).tolist(), margin=margin, point=P, form=form, distance=d)
    g.nt(abs(d) < 0.2 * inr)
    g.cls(form, "inside" if d > 0 else "outside")
    ok = qp.solve(p)
    check("membership", ok == (d > 0), lambda: f"{form}: point at signed distance {d} {'admitted' if ok else 'refused'} (margin {margin})")


def f_soft(g):
    """Soft polygon: the violation of each edge is what is penalised."""
    p, vs, sizes, n, pts, cen, inr, A, b = setup(g)
    margin = g.flt(-0.5, 0.9) * inr
    w = g.pos(0.1, 20)
    c, form = constrain(g, vs, sizes, A, b, pts, margin)
    h = p.add_constraint(c)
    h.configure("soft", w)
    P = cen + g.gauss_vec(2, 1.5)
    p.add_constraint(qp.expr_of(vs, sizes, A, b) == P).configure("soft", 1.0)
    p.solve()
    N, o = qp.polygon_rows(pts, margin)
    sp = qp.Spec()
    sp.sizes = sizes
    sp.cons = [qp.Con("ineq", N @ A, N @ b + o, "soft", w), qp.Con("eq", A, b - P, "soft", 1.0)]
    x = qp.values(vs)
    g.note(polygon=np.array(pts).tolist(), margin=margin, desired=P, weight=w)
    g.nt(inside(pts, P, margin) < 0)
    r = qp.kkt_residual(sp, x, p.regularization)
    check("soft-polygon", r < 1e-5, f"{form}: gradient residual {r}")


def f_empty(g):
    p, vs, sizes, n, pts, cen, inr, A, b = setup(g, False)
    R = max(np.linalg.norm(q - cen) for q in pts)
    margin = R * g.flt(1.05, 4)
    c, form = constrain(g, vs, sizes, A, b, pts, margin)
    p.add_constraint(c)
    p.add_constraint(qp.expr_of(vs, sizes, np.eye(n), np.zeros(n)) == np.zeros(n)).configure("soft", 1.0)
    p.regularization = 1e-3
    g.note(polygon=np.array(pts).tolist(), margin=margin)
    g.nt()
    raises("empty-polygon-solved", p.solve)


def f_shape(g):
    """A point expression of the wrong size is refused."""
    p = placo.Problem()
    k = g.choice([1, 3, 4])
    v = p.add_variable(k)
    pts = [np.array(q) for q in qp.clockwise_polygon(g)]
    g.nt()
    g.note(rows=k)
    raises("wrong-rows", lambda: placo.PolygonConstraint.in_polygon_xy(v.expr(), pts, 0.0))


FACETS = [
    Facet("project", f_project, 6000, 80000, "desired point outside of, or near, the border of the shrunk polygon"),
    Facet("membership", f_membership, 4000, 60000, "point within 20% of the inradius from the border"),
    Facet("soft", f_soft, 2000, 30000, "desired point outside"),
    Facet("empty", f_empty, 800, 8000, "margin above the circumradius"),
    Facet("shape", f_shape, 50, 200, "an expression that has not two rows"),
]
