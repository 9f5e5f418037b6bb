"""P09: 2D segment predicates agree with exact plane geometry."""
from fractions import Fraction as Fr
import math
import numpy as np
import placo
from engine import Facet, Violation, Discard, close, check, raises

RULE = "A case is a pair of non-degenerate segments and a point on an integer lattice (exact rational oracle), optionally moved rigidly; non-trivial when the segments touch, cross, are aligned or parallel, or one line meets the other segment."


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def lattice(g, m=12):
    return (g.integer(0, 2 * m) - m, g.integer(0, 2 * m) - m)


def segment(g):
    a = lattice(g)
    b = lattice(g)
    if a == b:
        b = (a[0] + 1, a[1])
    return a, b


def related(g, s):
    """A second segment, biased to special positions with respect to s."""
    a, b = s
    d = sub(b, a)
    k = g.weighted([(4, "any"), (2, "parallel"), (2, "aligned"), (3, "touch"), (2, "through"), (1, "same")])
    if k == "any":
        return segment(g), k
    if k == "same":
        return (a, b) if g.boolean() else (b, a), k
    if k == "parallel":
        o = lattice(g)
        m = g.choice([1, -1, 2])
        return (o, (o[0] + m * d[0], o[1] + m * d[1])), k
    if k == "aligned":
        i, j = g.integer(-3, 3), g.integer(-3, 3)
        if i == j:
            j = i + 1
        return ((a[0] + i * d[0], a[1] + i * d[1]), (a[0] + j * d[0], a[1] + j * d[1])), k
    if k == "touch":
        p = a if g.boolean() else b
        q = lattice(g)
        if q == p:
            q = (p[0], p[1] + 1)
        return ((p, q) if g.boolean() else (q, p)), k
    # a segment whose line goes through an end of s
    p = a if g.boolean() else b
    q = lattice(g)
    e = sub(q, p)
    if e == (0, 0):
        e = (1, 2)
    i, j = g.integer(-3, 3), g.integer(-3, 3)
    if i == j:
        j = i + 1
    return ((p[0] + i * e[0], p[1] + i * e[1]), (p[0] + j * e[0], p[1] + j * e[1])), k


def motion(g):
    """A rigid motion and a change of unit (a power of two, exact)."""
    f, exact = rigid(g)
    k = g.weighted([(3, 0), (1, g.integer(-8, 8))])
    return (lambda p: f(p) * 2.0**k), exact, 2.0**k


def rigid(g):
    if g.boolean(0.5):
        return lambda p: np.array(p, float), True
    # lattice motions stay exact; general rotations do not
    if g.boolean(0.4):
        ox, oy = g.integer(-100, 100), g.integer(-100, 100)
        r = g.integer(0, 3)
        c, s = [(1, 0), (0, 1), (-1, 0), (0, -1)][r]
        return lambda p: np.array([c * p[0] - s * p[1] + ox, s * p[0] + c * p[1] + oy], float), True
    th, ox, oy = g.flt(-3, 3, 0), g.flt(-50, 50), g.flt(-50, 50)
    return lambda p: np.array([math.cos(th) * p[0] - math.sin(th) * p[1] + ox, math.sin(th) * p[0] + math.cos(th) * p[1] + oy]), False


EPS = 1e-5


def f_pair(g):
    s = segment(g)
    o, kind = related(g, s)
    f, exact, unit = motion(g)
    S = placo.Segment(f(s[0]), f(s[1]))
    O = placo.Segment(f(o[0]), f(o[1]))
    v1, v2 = sub(s[1], s[0]), sub(o[1], o[0])
    det = cross(v1, v2)
    g.note(s=s, o=o, kind=kind, exact=exact)
    g.cls(kind, "exact" if exact else "moved")
    close("norm", S.norm(), math.hypot(*v1) * unit, rtol=1e-12)
    close("start", S.start, f(s[0]))
    close("end", S.end, f(s[1]))
    par = det == 0
    check("parallel", S.is_parallel(O, EPS) == par, f"{s} {o}")
    check("parallel-symmetric", O.is_parallel(S, EPS) == par, f"{s} {o}")
    ali = par and cross(v1, sub(o[0], s[0])) == 0
    if exact or not ali:
        al = cross(v1, sub(o[0], s[0])) == 0 and cross(v1, sub(o[1], s[0])) == 0
        check("aligned", S.is_segment_aligned(O, EPS) == al, f"{s} {o}")
        g.nt(al)
    if par:
        g.nt()
        raises("intersects-parallel", lambda: S.intersects(O))
        raises("line-parallel", lambda: S.line_pass_through(O))
        raises("half-line-parallel", lambda: S.half_line_pass_through(O))
        raises("intersection-parallel", lambda: S.lines_intersection(O))
        return
    w = sub(o[0], s[0])
    l1, l2 = Fr(cross(w, v2), det), Fr(cross(w, v1), det)
    X = (s[0][0] + l1 * v1[0], s[0][1] + l1 * v1[1])
    g.nt(0 <= l1 <= 1 or 0 <= l2 <= 1)
    border = any(abs(l - b) < Fr(1, 10**6) for l in (l1, l2) for b in (0, 1))
    if border and not exact:
        g.cls("border-skipped")
    else:
        in1, in2 = 0 <= l1 <= 1, 0 <= l2 <= 1
        check("intersects", S.intersects(O) == (in1 and in2), f"{s} {o} {l1} {l2}")
        check("intersects-symmetric", O.intersects(S) == (in1 and in2), f"{s} {o} {l1} {l2}")
        check("line-through", S.line_pass_through(O) == in1, f"{s} {o} {l1}")
        check("line-through-swapped", O.line_pass_through(S) == in2, f"{s} {o} {l2}")
        check("half-line-through", S.half_line_pass_through(O) == (in1 and l2 >= 0), f"{s} {o} {l1} {l2}")
        g.cls("crossing" if in1 and in2 else "apart")
        if border:
            g.cls("touching")
    P = f((float(X[0]), float(X[1])))
    close("lines-intersection", S.lines_intersection(O), P, atol=1e-6 * unit, rtol=1e-8, msg=f"{s} {o}")
    close("lines-intersection-swapped", O.lines_intersection(S), P, atol=1e-6 * unit, rtol=1e-8, msg=f"{s} {o}")


def f_point(g):
    s = segment(g)
    d = sub(s[1], s[0])
    k = g.choice(["any", "line", "inside", "end", "near"])
    if k == "any":
        p = lattice(g)
    elif k == "line":
        i = g.integer(-3, 4)
        p = (s[0][0] + i * d[0], s[0][1] + i * d[1])
    elif k == "end":
        p = s[g.integer(0, 1)]
    else:
        i = Fr(g.integer(1, 3), 4)
        p = (s[0][0] + i * d[0], s[0][1] + i * d[1])
        if k == "near":
            n = (-d[1], d[0])
            e = Fr(g.choice([1, -1]), 200)
            p = (p[0] + e * n[0], p[1] + e * n[1])
    f, exact, unit = motion(g)
    S = placo.Segment(f((0, 0)), f((1, 0)))
    # through the setters: the segment is what start and end say
    if g.boolean(0.3):
        S.start = f(s[0])
        S.end = f(s[1])
    else:
        S = placo.Segment(f(s[0]), f(s[1]))
    P = f((float(p[0]), float(p[1])))
    close("setter-start", S.start, f(s[0]))
    close("setter-end", S.end, f(s[1]))
    w = sub(p, s[0])
    al = cross(d, w) == 0
    inside = al and 0 <= dot(d, w) <= dot(d, d)
    g.note(s=s, p=[float(p[0]), float(p[1])], kind=k)
    g.cls(k, "exact" if exact else "moved")
    g.nt(al or k == "near")
    at_end = p in (s[0], s[1])
    check("point-aligned", S.is_point_aligned(P, EPS) == al or (at_end and not exact), f"{s} {p}")
    if not at_end or exact:
        check("point-in-segment", S.is_point_in_segment(P, EPS) == inside, f"{s} {p}")


FACETS = [
    Facet("pair", f_pair, 20000, 300000, "the segments touch, cross, are parallel, or a line meets the other segment"),
    Facet("point", f_point, 12000, 150000, "the point is on the line, or 0.5% away from the segment"),
]
