"""P07: splines and polynomials interpolate, clamp and differentiate consistently."""
import math
from fractions import Fraction
import numpy as np
import placo
from engine import Facet, Violation, Discard, close, check, raises

RULE = "A case is a history of additions, queries and clears on a spline (or a polynomial with queries); non-trivial when a spline has three points or more, or the polynomial has degree two or more."


def hermite(p0, p1, t):
    """Cubic through two (t, x, dx) points: value and two derivatives at t (independent Hermite basis form)."""
    t0, x0, d0 = p0
    t1, x1, d1 = p1
    h = t1 - t0
    s = (t - t0) / h
    x = (2 * s**3 - 3 * s**2 + 1) * x0 + (s**3 - 2 * s**2 + s) * h * d0 + (-2 * s**3 + 3 * s**2) * x1 + (s**3 - s**2) * h * d1
    v = ((6 * s**2 - 6 * s) * x0 + (3 * s**2 - 4 * s + 1) * h * d0 + (-6 * s**2 + 6 * s) * x1 + (3 * s**2 - 2 * s) * h * d1) / h
    a = ((12 * s - 6) * x0 + (6 * s - 4) * h * d0 + (-12 * s + 6) * x1 + (6 * s - 2) * h * d1) / h**2
    return x, v, a


def wrap(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


class Model:
    def __init__(self, angular):
        self.angular = angular
        self.pts = []

    def add(self, t, x, dx):
        if self.pts and t <= self.pts[-1][0]:
            return False
        if self.angular and self.pts:
            x = self.pts[-1][1] + wrap(x - self.pts[-1][1])
        self.pts.append((t, x, dx))
        return True

    def eval(self, t):
        P = self.pts
        if not P:
            return (0.0, 0.0, 0.0), False
        if len(P) == 1:
            return (P[0][1], P[0][2], 0.0), False
        t = min(max(t, P[0][0]), P[-1][0])
        for i in range(len(P) - 1):
            if t <= P[i + 1][0] or i == len(P) - 2:
                amb = any(abs(t - q[0]) < 1e-9 for q in P[1:-1])  # acceleration is not continuous at inner points
                return hermite(P[i], P[i + 1], t), amb


def f_spline(g):
    angular = g.boolean(0.4)
    sp = placo.CubicSpline(angular) if angular or g.boolean() else placo.CubicSpline()
    m = Model(angular)
    log = []
    most = 0
    t = g.flt(-5, 5)
    for _ in range(g.integer(2, 25)):
        op = g.weighted([(5, "add"), (5, "query"), (1, "clear"), (1, "back"), (1, "duration"), (2, "knots")])
        log.append(op)
        if op == "add":
            t = (m.pts[-1][0] if m.pts else t) + g.pos(0.05, 2.0)
            x = g.flt(-8, 8) if angular else g.flt(-2, 2)
            if angular and m.pts and abs(abs(wrap(x - m.pts[-1][1])) - math.pi) < 1e-3:
                x += 0.01
            dx = g.flt(-2, 2)
            sp.add_point(t, x, dx)
            m.add(t, x, dx)
        elif op == "back" and m.pts:
            bt = m.pts[-1][0] - g.choice([0.0, 0.0, 0.1, 1.0, 10.0])
            raises("non-increasing-accepted", lambda: sp.add_point(bt, g.flt(-1, 1), 0.0))
        elif op == "clear":
            sp.clear()
            m.pts = []
        elif op == "duration":
            close("duration", sp.duration(), m.pts[-1][0] - m.pts[0][0] if m.pts else 0.0, atol=1e-9, msg=f"{log}")
        elif op == "knots":
            for (kt, kx, kd) in m.pts:
                close("knot", sp.pos(kt), kx, atol=1e-6, msg=f"{log}")
                close("knot-velocity", sp.vel(kt), kd, atol=1e-5, msg=f"{log}")
        else:
            most = max(most, len(m.pts))
            lo, hi = (m.pts[0][0], m.pts[-1][0]) if m.pts else (0, 1)
            q = lo - 0.3 + (hi - lo + 0.6) * g.flt(0, 1)
            if m.pts and g.boolean(0.2):
                q = m.pts[g.integer(0, len(m.pts) - 1)][0]
            (x, v, a), amb = m.eval(q)
            h = min([1.0] + [m.pts[i + 1][0] - m.pts[i][0] for i in range(len(m.pts) - 1)])
            close("pos", sp.pos(q), x, atol=1e-6, msg=f"t={q} {log}")
            close("vel", sp.vel(q), v, atol=1e-6 / h, msg=f"t={q} {log}")
            if not amb:
                close("acc", sp.acc(q), a, atol=1e-6 / h**2, msg=f"t={q} {log}")
            if len(m.pts) >= 2 and lo + 1e-3 < q < hi - 1e-3:
                e = 1e-5
                fd = (sp.pos(q + e) - sp.pos(q - e)) / (2 * e)
                check("velocity-is-derivative", abs(fd - sp.vel(q)) < 1e-3 / h**2, f"{fd} {sp.vel(q)}")
    g.note(angular=angular, points=m.pts, log=log)
    g.nt(most >= 3)
    g.cls("angular" if angular else "linear", *log)


def f_spline3d(g):
    sp = placo.CubicSpline3D()
    ms = [Model(False) for _ in range(3)]
    log = []
    most = 0
    t = g.flt(-5, 5)
    for _ in range(g.integer(2, 20)):
        op = g.weighted([(5, "add"), (5, "query"), (1, "clear"), (1, "back"), (1, "duration")])
        log.append(op)
        if op == "add":
            t = (ms[0].pts[-1][0] if ms[0].pts else t) + g.pos(0.05, 2.0)
            x, dx = g.vec(3, -2, 2), g.vec(3, -2, 2)
            sp.add_point(t, x, dx)
            for k in range(3):
                ms[k].add(t, x[k], dx[k])
        elif op == "back" and ms[0].pts:
            bt = ms[0].pts[-1][0] - g.choice([0.0, 0.1, 1.0])
            raises("non-increasing-accepted", lambda: sp.add_point(bt, np.zeros(3), np.zeros(3)))
        elif op == "clear":
            sp.clear()
            for m in ms:
                m.pts = []
        elif op == "duration":
            P = ms[0].pts
            close("duration", sp.duration(), P[-1][0] - P[0][0] if P else 0.0, atol=1e-9)
        else:
            P = ms[0].pts
            most = max(most, len(P))
            lo, hi = (P[0][0], P[-1][0]) if P else (0, 1)
            q = lo - 0.3 + (hi - lo + 0.6) * g.flt(0, 1)
            h = min([1.0] + [P[i + 1][0] - P[i][0] for i in range(len(P) - 1)])
            ev = [m.eval(q) for m in ms]
            close("pos3d", sp.pos(q), [e[0][0] for e in ev], atol=1e-6, msg=f"t={q} {log}")
            close("vel3d", sp.vel(q), [e[0][1] for e in ev], atol=1e-6 / h, msg=f"t={q} {log}")
            if not ev[0][1]:
                close("acc3d", sp.acc(q), [e[0][2] for e in ev], atol=1e-6 / h**2, msg=f"t={q} {log}")
    g.note(points=len(ms[0].pts), log=log)
    g.nt(most >= 3)
    g.cls(*log)


def poly_exact(c, x, d):
    """Derivative d of the polynomial with coefficients c (highest first) at x, in rationals."""
    n = len(c)
    tot = Fraction(0)
    X = Fraction(x)
    for i, a in enumerate(c):
        deg = n - 1 - i
        if deg < d:
            continue
        f = 1
        for k in range(d):
            f *= deg - k
        tot += Fraction(a) * f * X ** (deg - d)
    return float(tot), float(sum(abs(Fraction(a)) for a in c))


def f_polynom(g):
    deg = g.weighted([(6, g.integer(0, 6)), (2, g.integer(7, 12)), (1, g.integer(13, 18))])
    c = g.gauss_vec(deg + 1) if not g.boolean(0.3) else np.array([float(g.integer(-5, 5)) for _ in range(deg + 1)])
    p = placo.Polynom(c)
    close("coefficients", np.atleast_1d(p.coefficients), c)
    g.note(coefficients=c)
    g.nt(deg >= 2)
    g.cls(f"deg{min(deg, 13)}{'+' if deg >= 13 else ''}")
    for _ in range(4):
        x = g.flt(-2, 2, 0.3)
        d = g.small(0, deg + 2)
        want, mag = poly_exact(c, x, d)
        fact = math.prod(range(deg - d + 1, deg + 1)) if d <= deg else 1
        close("polynom", p.value(x, d), want, atol=1e-9 * (1 + mag) * fact * max(1, abs(x)) ** deg, rtol=1e-9, msg=f"x={x} derivative {d}")
        if d == 0:
            close("polynom-default", p.value(x), want, atol=1e-9 * (1 + mag) * max(1, abs(x)) ** deg, rtol=1e-9)
    a, b = g.integer(0, deg), g.integer(0, deg + 1)
    want = math.prod(range(a - b + 1, a + 1)) if b <= a else 0
    close("derivative-coefficient", placo.Polynom.derivative_coefficient(a, b), want, atol=0, rtol=1e-12)


def f_problem_polynom(g):
    """A polynomial solved for: constraints on values and derivatives are met, and the polynom agrees with the expressions."""
    n = g.integer(1, 7)
    p = placo.Problem()
    if g.boolean(0.4):
        p.add_variable(g.integer(1, 2))
    v = p.add_variable(n)
    pp = placo.ProblemPolynom(v)
    # Hermite-like data at distinct abscissas
    k = g.integer(1, n)
    xs = [g.flt(-0.2, 0.2) + i * 0.5 - 0.6 for i in range(k)]
    cons = []
    for i in range(k):
        d = g.small(0, min(2, n - 1))
        y = g.flt(-2, 2)
        cons.append((xs[i], d, y))
    # expressions at a random assignment
    x = g.gauss_vec(p.n_variables)
    c = x[v.k_start:v.k_end]
    g.note(size=n, constraints=cons)
    g.nt(n >= 3)
    for _ in range(3):
        q, d = g.flt(-2, 2), g.small(0, n + 1)
        want, mag = poly_exact(c, q, d)
        e = pp.expr(q, d)
        close("polynom-expr", np.atleast_1d(e.value(x)), [want], atol=1e-7 * (1 + mag) * 10, rtol=1e-8, msg=f"x={q} derivative {d}")
        if d == 0:
            close("polynom-expr-default", np.atleast_1d(pp.expr(q).value(x)), [want], atol=1e-7 * (1 + mag), rtol=1e-8)
    A = np.array([[poly_exact(np.eye(n)[j], q, d)[0] for j in range(n)] for q, d, _ in cons])
    s = np.linalg.svd(A, compute_uv=False)
    if s[-1] < 0.02:
        return
    for q, d, y in cons:
        p.add_constraint(pp.expr(q, d) == np.array([y]))
    p.solve()
    poly = pp.get_polynom()
    close("polynom-coefficients", np.atleast_1d(poly.coefficients), np.atleast_1d(v.value))
    for q, d, y in cons:
        close("polynom-constraint", poly.value(q, d), y, atol=1e-4, msg=f"x={q} derivative {d}")
    g.cls("solved")


FACETS = [
    Facet("spline", f_spline, 5000, 80000, "three points or more at some query"),
    Facet("spline3d", f_spline3d, 2500, 40000, "three points or more at some query"),
    Facet("polynom", f_polynom, 5000, 80000, "degree two or more"),
    Facet("problem-polynom", f_problem_polynom, 2500, 40000, "three coefficients or more"),
]
