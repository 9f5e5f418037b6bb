"""P48: adjusting the current step to the measured DCM stays viable and is the best compromise."""
import math
import numpy as np
import placo
from engine import Facet, Violation, Discard, close, check, raises
from walk import *
from props.p44 import make
from props.p45 import support_data, same

RULE = "A case is a walk, an instant of one of its single supports and a measured DCM; or a pair of DCMs and a support for the ZMP in between."


def halfplanes(pts):
    """Inward unit normals and offsets of a convex polygon."""
    from scipy.spatial import ConvexHull
    h = ConvexHull(pts)
    return -h.equations[:, :2], h.equations[:, 2]


def project(N, o, z):
    """Closest point to z with N q >= o, by enumeration of the sets of at most two active constraints."""
    best, bd = None, np.inf
    n = len(o)
    cands = [z] + [z + (o[i] - N[i] @ z) * N[i] for i in range(n)]
    for i in range(n):
        for j in range(i):
            A = np.array([N[i], N[j]])
            if abs(np.linalg.det(A)) > 1e-9:
                cands.append(np.linalg.solve(A, [o[i], o[j]]))
    for c in cands:
        if np.min(N @ c - o) >= -1e-9 and np.linalg.norm(c - z) < bd:
            best, bd = c, np.linalg.norm(c - z)
    return best


def f_zmp(g):
    """The ZMP moving the DCM from a point to another: the exact one, or the closest one in the support."""
    p = walk_parameters(g)
    pl, fs = steps_plan(g, p, 4)
    sup = placo.FootstepsPlanner.make_supports(fs, 0.0, True, p.has_double_support(), True)
    s = g.choice(list(sup))
    ph = Phase(p, s, 0.0)
    N, o = ph.halfplanes()
    om = math.sqrt(G / p.walk_com_height)
    T = g.pos(0.01, 1.5) if g.boolean(0.85) else g.pos(1e-3, 1e-2)
    r = max(p.foot_length, p.foot_width)
    c = ph.frame[:2, 3]
    k = g.weighted([(2, "inside"), (3, "any")])
    a = c + r * g.vec(2, -1, 1)
    if k == "inside":  # made from a ZMP in the support
        z = c + g.flt(0, 0.3) * min(p.foot_length, p.foot_width) * g.vec(2, -1, 1)
        b = (a - z) * math.exp(om * T) + z
    else:
        b = c + r * g.vec(2, -2, 2)
    e = math.exp(om * T)
    ideal = (b - a * e) / (1 - e)
    w = placo.WalkPatternGenerator(humanoid(), p)
    got = np.array(w.get_optimal_zmp(a, b, T, s))
    want = project(N, o + p.zmp_margin, ideal)
    if want is None:
        raise Discard
    clipped = np.linalg.norm(want - ideal) > 1e-6
    g.note(feet=len(ph.feet), duration=T, clipped=clipped)
    g.nt(True)
    g.cls("both" if ph.both else "single", "clipped" if clipped else "exact")
    check("in-support", np.min(N @ got - o) >= p.zmp_margin - 1e-6, f"ZMP {np.min(N @ got - o)} inside, margin {p.zmp_margin}")
    close("closest", got, want, atol=1e-5 * (1 + np.linalg.norm(ideal)), msg=f"closest to {ideal}")
    if not clipped:
        close("reaches", (a - got) * e + got, b, atol=1e-4 * e * (1 + np.linalg.norm(ideal)))


def polygon(g, center, rx, ry):
    """Clockwise, symmetric along x."""
    k = g.flt(0.4, 1.0)
    pts = [(-rx, -ry * k), (-rx * k, ry), (rx * k, ry), (rx, -ry * k)] if g.boolean() else [(-rx, -ry), (-rx, ry), (rx, ry), (rx, -ry)]
    if g.boolean(0.3):
        pts = pts[:1] + [(-rx, 0.5 * (pts[0][1] + pts[1][1]))] + pts[1:3] + [(rx, 0.5 * (pts[2][1] + pts[3][1]))] + pts[3:]
        pts[1], pts[4] = (pts[1][0] * 1.2, pts[1][1]), (pts[4][0] * 1.2, pts[4][1])
    return [np.array([x, y + center]) for x, y in pts]


def f_adjust(g):
    p, pl, fs, sup, ph, t0, com, lip, slack = make(g, 6, direct=True)
    if slack is None or slack < 1e-3 or p.has_double_support():
        raise Discard
    w = placo.WalkPatternGenerator(humanoid(), p)
    tr = w.plan(sup, com, t0)
    om = math.sqrt(G / p.walk_com_height)
    if om * p.single_support_duration > 5:
        raise Discard
    ok = [i for i in range(len(ph) - 1) if not ph[i].both and not ph[i + 1].both]
    if not ok:
        raise Discard
    i = g.choice(ok)
    S = tr.get_supports()
    cur = list(S)[i:]
    side = list(ph[i].feet)[0]
    sg = 1 if side == RIGHT else -1   # the flying foot is on this side (y) of the support
    d = p.feet_spacing
    wide = g.choice([0.3, 1.0, 3.0])
    op = polygon(g, d, wide * max(p.walk_max_dx_forward, p.walk_max_dx_backward) + 0.01, min(wide * p.walk_max_dy + 0.01, 0.9 * d))
    off = polygon(g, g.flt(-0.2, 0.2) * d, g.pos(0.05, 0.6) * d + 0.02, g.pos(0.05, 0.6) * d + 0.02)
    p.op_space_polygon = op
    p.dcm_offset_polygon = off
    Nop, oop = halfplanes(np.array(op) * sg)
    Nof, oof = halfplanes(np.array(off) * -sg)
    f = ph[i]
    elapsed = g.weighted([(4, g.flt(0.0, 0.95)), (1, g.flt(0.95, 0.995))]) * f.duration
    if g.boolean(0.2):  # a walk on a raised floor
        z = g.flt(-0.2, 0.5)
        for s in cur:
            for q in s.footsteps:
                T = np.array(q.frame)
                T[2, 3] = z
                q.frame = T
    t = f.t0 + elapsed
    om_t = math.exp(-om * elapsed)
    dcm_nom = np.array(tr.get_p_world_DCM(t, om))
    scale = g.choice([0.0, 0.01, 0.05, 0.2])
    dcm = dcm_nom + scale * g.vec(2, -1, 1)
    if f.duration > 3.0 or f.default * f.ratio > 3.0:
        raise Discard
    if g.boolean(0.4):
        # the support was already begun when it was planned again
        cur[0].elapsed_ratio = g.choice([g.flt(0, 1), 1.0]) * elapsed / f.duration
    before = [support_data(s) for s in cur]
    R2, p2 = f.feet[side][:2, :2], f.feet[side][:2, 3]
    target = ph[i + 1].frame[:2, 3]
    tdcm = before[0]["dcm"]
    T = f.default
    zv = np.array(w.get_optimal_zmp(dcm, tdcm, max(1e-5, T - elapsed), cur[0]))
    T_min, T_max = max(0.15, elapsed), max(3.0, elapsed)
    taus = (math.exp(om * T_min), math.exp(om * T_max))

    def parts(x):
        tau, z = x[0], x[1:3]   # z: next ZMP in the support frame
        wz = p2 + R2 @ z
        end = (dcm - zv) * om_t * tau + zv
        offset = R2.T @ (end - wz)
        return tau, z, wz, end, offset

    def cost(x):
        tau, z, wz, end, offset = parts(x)
        viol = np.minimum(Nof @ offset - oof, 0)
        return 5 * (tau - math.exp(om * T)) ** 2 + 100 * np.sum((wz - target) ** 2) + 1000 * np.sum((R2 @ offset - (tdcm - target)) ** 2) + 1e6 * np.sum(viol**2)

    def feasible(x, tol=0.0):
        return taus[0] - tol * taus[0] <= x[0] <= taus[1] * (1 + tol) and np.min(Nop @ x[1:3] - oop) >= -tol
    try:
        out = list(w.update_supports(t, cur, dcm))
    except RuntimeError as e:
        raise Violation("not-adjusted", f"{e}")
    g.note(supports=len(cur), elapsed=elapsed, error=scale, side=str(side))
    check("count", len(out) == len(cur), "")
    for k in range(len(cur)):
        a, b = support_data(out[k]), dict(before[k])
        if k == 0:
            b["ratio"] = a["ratio"]
        if k == 1:
            F = np.array(b["feet"][list(b["feet"])[0]])
            F[:2, 3] = list(a["feet"].values())[0][:2, 3]
            b["feet"] = {list(b["feet"])[0]: F}
        same("other-data", a, b, f"support {k}")
        same("input-changed", support_data(cur[k]), before[k], f"support {k} given")
    wz = np.array(out[1].footsteps[0].frame)[:2, 3]
    z = R2.T @ (wz - p2)
    remaining = out[0].time_ratio * f.default * (1 - before[0]["elapsed"])
    check("remaining", remaining >= 1e-3 - 1e-9, f"{remaining}")
    inside = np.min(Nop @ z - oop)
    check("reachable", inside >= -1e-4, f"the next footstep is {-inside} out of the reachable area of the {side} support")
    end = elapsed + remaining
    check("duration", T_min - 1e-6 <= end <= T_max + 2e-3, f"the support ends after {end} s, bounds {T_min} {T_max}")
    x = np.array([math.exp(om * end), *z])
    base = cost(x)
    if remaining <= 1.001e-3:  # at least that much remains: the end decided is anywhere up to there
        lo, hi = taus[0], max(taus[0], math.exp(om * (elapsed + 1e-3)))
        cands = [np.array([lo + k * (hi - lo) / 200, *z]) for k in range(201)]
        x = min(cands, key=cost)
        base = cost(x)
    # no better compromise around, at any scale
    best, arg = base, None
    from scipy.optimize import minimize
    sc = np.array([math.exp(om * T), 0.1, 0.1])
    cons = [{"type": "ineq", "fun": lambda y: Nop @ (y[1:] * sc[1:]) - oop, "jac": lambda y: np.hstack([np.zeros((len(oop), 1)), Nop * sc[1:]])}]
    for start in (x, np.array([math.exp(om * T), *np.mean(op, axis=0) * sg])):
        r = minimize(lambda y: cost(y * sc), start / sc, bounds=[(taus[0] / sc[0], taus[1] / sc[0]), (None, None), (None, None)], constraints=cons, method="SLSQP", options=dict(maxiter=200, ftol=1e-12))
        y = r.x * sc
        if feasible(y, 1e-9) and cost(y) < best:
            best, arg = cost(y), y
    tiny = 1e-10 * 5 * math.exp(2 * om * T) + 1e-7
    check("not-best", base <= best * 1.06 + 10 * tiny, f"adjusted step costs {base}, {arg} costs {best} (got {x})")
    moved = np.linalg.norm(wz - target)
    g.nt(moved > 1e-4 or abs(end - T) > 1e-3)
    g.cls("moved" if moved > 1e-4 else "kept", "L" if side == LEFT else "R", "bound" if inside < 1e-6 else "free")


FACETS = [
    Facet("zmp", f_zmp, 600, 10000, "always"),
    Facet("adjust", f_adjust, 400, 6000, "the step was moved or its duration changed"),
]
