"""P41: swing foot trajectories join their endpoints smoothly and rise as requested."""
import math
import numpy as np
import placo
from engine import Facet, Violation, Discard, close, check
from props.p07 import hermite

RULE = "A case is a swing (with re-plannings) queried over its duration; non-trivial when the foot moves horizontally and rises."


def ends(g, flat=None):
    a, b = g.vec(3, -1, 1), g.vec(3, -1, 1)
    if flat if flat is not None else g.boolean(0.6):
        a[2] = b[2] = g.choice([0.0, 0.0, g.flt(-0.2, 0.2)])
    else:
        a[2], b[2] = g.flt(-0.1, 0.1), g.flt(-0.1, 0.1)
    h = max(a[2], b[2]) + g.pos(0.01, 0.3)
    if g.boolean(0.15):  # below an endpoint, or both
        h = g.flt(-0.3, 0.1)
    return a, b, h


def times(g):
    t0 = g.weighted([(2, 0.0), (4, g.flt(-10, 100)), (1, g.flt(100, 5000))])
    return t0, g.pos(0.1, 3.0)


def derivative(tr, t0, t1, d, tol, smooth=()):
    """The velocity is the derivative of the position, everywhere."""
    for u in np.linspace(0.013, 0.987, 9):
        t = t0 + (t1 - t0) * u
        if any(abs(t - s) < 0.01 * d for s in smooth):
            continue
        e = 1e-4 * d
        fd = (np.array(tr.pos(t + e)) - np.array(tr.pos(t - e))) / (2 * e)
        check("velocity-is-derivative", np.abs(fd - tr.vel(t)).max() < tol, f"at {u}: {fd} {tr.vel(t)}")


def f_cubic(g):
    t0, d = times(g)
    rise = g.weighted([(2, 0.0), (1, -0.1), (6, g.flt(0.02, 0.95))])
    a, b, h = ends(g)
    el = g.weighted([(5, 0.0), (4, g.flt(0.0, 0.97))])
    v = np.zeros(3) if g.boolean(0.5) else g.vec(3, -1, 1)
    virt0 = t0 - el * d
    t1 = virt0 + d
    knots = [(virt0 + d / 2 * (1 - rise)), (virt0 + d / 2 * (1 + rise))] if rise > 0 else [virt0 + d / 2]
    if any(abs(k - t0) < 1e-3 * d for k in knots):
        raise Discard  # a knot at the very start
    tr = placo.SwingFootCubic.make_trajectory(t0, d, h, rise, a, b, el, v)
    ts = 1e-9 * (1 + abs(t0))  # resolution of the time
    V = 10 * (np.abs(b - a).max() + np.ptp([a[2], b[2], h]) + np.abs(v).max() * d) / (d * min(1, (1 - max(rise, 0)) / 2, 1 - el, *[abs(k - t0) / d for k in knots if k > t0]) ** 2)
    tol = 1e-7 + V * ts
    g.note(t_start=t0, duration=d, rise=rise, start=a, target=b, height=h, elapsed=el, start_vel=v)
    g.nt(np.abs((b - a)[:2]).max() > 1e-6)
    g.cls("replan" if el > 0 else "full", "plateau" if rise > 0 else "peak", "moving" if v.any() else "rest")
    close("start", tr.pos(t0), a, atol=tol)
    close("end", tr.pos(t1), b, atol=tol)
    close("start-velocity", tr.vel(t0), v, atol=1e-6 + 100 * V * ts / d)
    close("end-velocity", tr.vel(t1), np.zeros(3), atol=1e-6 + 100 * V * ts / d)
    pz = [(t0, a[2], v[2])] + [(k, h, 0.0) for k in knots if k > t0] + [(t1, b[2], 0.0)]
    for u in np.linspace(0, 1, 13):
        t = t0 + (t1 - t0) * u
        x = hermite((t0, a[0], v[0]), (t1, b[0], 0.0), t)
        y = hermite((t0, a[1], v[1]), (t1, b[1], 0.0), t)
        for i in range(len(pz) - 1):
            if t <= pz[i + 1][0] or i == len(pz) - 2:
                z = hermite(pz[i], pz[i + 1], min(t, pz[i + 1][0]))
                break
        close("pos", tr.pos(t), [x[0], y[0], z[0]], atol=tol, msg=f"at {u}")
        close("vel", tr.vel(t), [x[1], y[1], z[1]], atol=1e-6 + 100 * V * ts / d, msg=f"at {u}")
        if not v.any():
            zz = tr.pos(t)[2]
            lo, hi = min(a[2], b[2], h), max(a[2], b[2], h)
            check("height-range", lo - tol <= zz <= hi + tol, f"{zz} not in [{lo}, {hi}] at {u}")
    for k in knots:
        if k > t0:
            close("height", tr.pos(k)[2], h, atol=tol)
    for k in knots:  # continuity of the velocity through the knots
        if k > t0:
            e = 1e-7 * d
            if e > 10 * ts:
                close("velocity-continuous", tr.vel(k - e), np.array(tr.vel(k + e)), atol=1e-4 * V)
    if rise > 0 and t0 < knots[1]:
        lo = max(knots[0], t0)
        if knots[0] > t0:
            for u in (0.2, 0.7):
                close("plateau", tr.pos(lo + (knots[1] - lo) * u)[2], h, atol=tol)


def f_polynomial(g):
    """SwingFoot, with a history of re-plannings."""
    t0, d = times(g)
    a, b, h = ends(g)
    t1 = t0 + d
    tr = placo.SwingFoot.make_trajectory(t0, t1, h, a, b)
    ts = 1e-8 * (1 + abs(t0))
    V = 20 * (np.abs(b - a).max() + np.ptp([a[2], b[2], h])) / d
    tol = 1e-7 + V * ts
    # vertical profile: the cubic through four points
    uz = [0, 0.25, 0.75, 1]
    P = np.linalg.solve(np.vander(uz, 4), [a[2], h, h, b[2]])
    g.note(t_start=t0, duration=d, start=a, target=b, height=h)
    g.nt(np.abs((b - a)[:2]).max() > 1e-6)

    def vertical(tr):
        for u in np.linspace(0, 1, 9):
            close("height", tr.pos(t0 + d * u)[2], np.polyval(P, u), atol=tol * 10, msg=f"at {u}")
            close("vertical-velocity", tr.vel(t0 + d * u)[2], np.polyval(np.polyder(P), u) / d, atol=(1e-6 + 10 * tol) / d, msg=f"at {u}")
            if 0.25 <= u <= 0.75 and h > max(a[2], b[2]):
                check("above-height", tr.pos(t0 + d * u)[2] >= h - tol * 10 - (0 if a[2] == b[2] else 0.1 * abs(a[2] - b[2])), f"{tr.pos(t0 + d * u)} at {u}")

    close("start", tr.pos(t0), a, atol=tol)
    close("end", tr.pos(t1), b, atol=tol)
    close("start-velocity", tr.vel(t0)[:2], np.zeros(2), atol=(1e-6 + tol) / d)
    close("end-velocity", tr.vel(t1)[:2], np.zeros(2), atol=(1e-6 + tol) / d)
    vertical(tr)
    for u in np.linspace(0, 1, 7):
        t = t0 + d * u
        xy = [hermite((t0, a[k], 0.0), (t1, b[k], 0.0), t) for k in (0, 1)]
        close("pos", tr.pos(t)[:2], [q[0] for q in xy], atol=tol, msg=f"at {u}")
        close("vel", tr.vel(t)[:2], [q[1] for q in xy], atol=(1e-6 + tol) / d, msg=f"at {u}")
    derivative(tr, t0, t1, d, (1e-5 + 1e3 * ts) * V + 1e-5 + 100 * tol / d)
    # re-planning
    u = 0.0
    n = g.small(0, 3)
    for _ in range(n):
        u = u + (0.85 - u) * g.flt(0.0, 0.6)
        t = t0 + d * u
        target = np.array([g.flt(-1, 1), g.flt(-1, 1), b[2]])
        new = placo.SwingFoot.remake_trajectory(tr, t, target)
        V = max(V, 20 * (np.abs(target).max() + 1) / (d * (1 - u)))
        tol = 1e-7 + V * ts / (1 - u) ** 2
        close("replan-pos", new.pos(t), np.array(tr.pos(t)), atol=tol)
        close("replan-vel", new.vel(t), np.array(tr.vel(t)), atol=(1e-6 + 10 * tol) / d)
        close("replan-end", new.pos(t1), target, atol=tol)
        close("replan-end-velocity", new.vel(t1)[:2], np.zeros(2), atol=(1e-6 + 10 * tol) / d)
        p, v = np.array(tr.pos(t)), np.array(tr.vel(t))
        for w in (0.25, 0.5, 0.9):
            q = t + (t1 - t) * w
            xy = [hermite((t, p[k], v[k]), (t1, target[k], 0.0), q) for k in (0, 1)]
            close("replan-path", new.pos(q)[:2], [s[0] for s in xy], atol=10 * tol)
            close("replan-path-velocity", new.vel(q)[:2], [s[1] for s in xy], atol=(1e-6 + 100 * tol) / d)
        vertical(new)
        tr = new
    g.cls(f"replans{n}")


def f_quintic(g):
    t0, d = times(g)
    a, b, h = ends(g)
    t1 = t0 + d
    tr = placo.SwingFootQuintic.make_trajectory(t0, t1, h, a, b)
    ts = 1e-8 * (1 + abs(t0))
    V = 50 * (np.abs(b - a).max() + np.ptp([a[2], b[2], h])) / d
    tol = 1e-7 + V * ts
    g.note(t_start=t0, duration=d, start=a, target=b, height=h)
    g.nt(np.abs((b - a)[:2]).max() > 1e-6)
    close("start", tr.pos(t0), a, atol=tol)
    close("end", tr.pos(t1), b, atol=tol)
    close("start-velocity", tr.vel(t0), np.zeros(3), atol=(1e-6 + 10 * tol) / d)
    close("end-velocity", tr.vel(t1), np.zeros(3), atol=(1e-6 + 10 * tol) / d)
    close("height-quarter", tr.pos(t0 + d / 4)[2], h, atol=tol)
    close("height-three-quarters", tr.pos(t0 + 3 * d / 4)[2], h, atol=tol)
    # vertical profile: the quintic with these values and null end velocities
    row = lambda u: np.array([u**5, u**4, u**3, u**2, u, 1])
    drow = lambda u: np.array([5 * u**4, 4 * u**3, 3 * u**2, 2 * u, 1, 0])
    P = np.linalg.solve(np.array([row(0), row(1), drow(0), drow(1), row(0.25), row(0.75)]), [a[2], b[2], 0, 0, h, h])
    for u in np.linspace(0, 1, 11):
        t = t0 + d * u
        s = 10 * u**3 - 15 * u**4 + 6 * u**5  # rest to rest in velocity and acceleration
        ds = (30 * u**2 - 60 * u**3 + 30 * u**4) / d
        close("pos", tr.pos(t), [a[0] + (b[0] - a[0]) * s, a[1] + (b[1] - a[1]) * s, np.polyval(P, u)], atol=tol * 10, msg=f"at {u}")
        close("vel", tr.vel(t), [(b[0] - a[0]) * ds, (b[1] - a[1]) * ds, np.polyval(np.polyder(P), u) / d], atol=(1e-6 + 100 * tol) / d, msg=f"at {u}")
    derivative(tr, t0, t1, d, (1e-5 + 1e3 * ts) * V + 1e-5 + 100 * tol / d)


FACETS = [
    Facet("cubic", f_cubic, 4000, 60000, "the foot moves horizontally"),
    Facet("polynomial", f_polynomial, 2500, 40000, "the foot moves horizontally"),
    Facet("quintic", f_quintic, 2500, 40000, "the foot moves horizontally"),
]
