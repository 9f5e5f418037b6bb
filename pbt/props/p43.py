"""P43: footstep plans alternate feet, stay feasible and reach their goal."""
import math
import numpy as np
import placo
from engine import Facet, Violation, Discard, close, check, raises
from walk import *

RULE = "A case is a plan (or a set of footsteps and supports); non-trivial when it has four footsteps or more (plans), or feet that are not aligned (polygons)."


def start_feet(g, p, spread=0.5):
    """Left and right feet on the floor, around their neutral spacing."""
    L = flat(g.flt(-2, 2), g.flt(-2, 2), g.flt(-math.pi, math.pi))
    if g.boolean(0.2):
        L[2, 3] = g.flt(-0.1, 0.5)
    lim = np.array([min(p.walk_max_dx_forward, p.walk_max_dx_backward), p.walk_max_dy, p.walk_max_dtheta])
    d = spread * lim * g.vec(3, -1, 1) / math.sqrt(3)
    R = opposite(p, LEFT, L, d)
    return L, R


def common(fs, p, side, L, R):
    """Clauses of any plan: first feet, alternation, size of the feet, ground."""
    fs = list(fs)
    check("too-short", len(fs) >= 2, f"{len(fs)} footsteps")
    F = {LEFT: L, RIGHT: R}
    close("first-foot", fs[0].frame, F[side], atol=1e-12)
    close("second-foot", fs[1].frame, F[other(side)], atol=1e-12)
    s = side
    for k, f in enumerate(fs):
        check("alternation", f.side == s, f"footstep {k} on {f.side}")
        s = other(s)
        close("foot-size", [f.foot_width, f.foot_length], [p.foot_width, p.foot_length], atol=1e-12)
        T = np.array(f.frame)
        close("flat", T[2, :3], [0, 0, 1], atol=1e-9)
        close("rotation", T[:3, :3] @ T[:3, :3].T, np.eye(3), atol=1e-9)
        if k > 0:
            close("ground", T[2, 3], F[other(side)][2, 3], atol=1e-9)
    return fs


def rel_step(p, prev, f):
    """Step (dx, dy, dtheta) from the neutral place next to the previous foot."""
    T = np.linalg.inv(opposite(p, prev.side, np.array(prev.frame))) @ np.array(f.frame)
    return np.array([T[0, 3], T[1, 3], yaw_of(T)])


def f_repetitive(g):
    p = parameters(g, timing=False)
    L, R = start_feet(g, p)
    if g.boolean(0.15):
        R[2, 3] = g.flt(-0.1, 0.5)
    side = g.choice([LEFT, RIGHT])
    pl = placo.FootstepsPlannerRepetitive(p)
    lim = np.array([p.walk_max_dx_forward, p.walk_max_dy, p.walk_max_dtheta])
    hist = []
    for _ in range(g.small(1, 3)):
        step = g.vec(3, -1, 1) * lim * g.choice([0.3, 1.0, 3.0])
        n = g.weighted([(1, 0), (1, 1), (1, 2), (5, g.integer(3, 12)), (0.5, g.integer(13, 70))])
        hist.append((step, n))
        pl.configure(float(step[0]), float(step[1]), float(step[2]), n)
        fs = common(pl.plan(side, L, R), p, side, L, R)
        check("count", len(fs) == 2 + n, f"{len(fs)} footsteps for {n} steps")
        for k in range(2, len(fs)):
            last = k == len(fs) - 1
            r = rel_step(p, fs[k - 1], fs[k])
            want, _ = clipped_step(p, fs[k - 1].side, np.zeros(3) if last else step, "conic")
            if want is None:
                raise Discard
            close("rejoin" if last else "repeated-step", r, want, atol=1e-9, msg=f"footstep {k}")
            check("step-limits", clip_norm("conic", p, r) <= 1 + 1e-6, f"{r}")
        if g.boolean(0.3):
            side = other(side)
    g.note(history=hist, side=str(side))
    g.nt(max(n for _, n in hist) >= 2)
    g.cls(str(side), f"n{min(hist[-1][1], 3)}")


def toward(g, p, prev, r, goal):
    """A step of the goal directed planner (r, from next to the foot prev) goes toward the goal, and turns by the shorter way
    toward the place of the goal when it is far, or toward its orientation when it is near (half a metre)."""
    side = prev.side
    D = np.linalg.inv(opposite(p, side, np.array(prev.frame))) @ goal[other(side)]
    err = D[:2, 3]
    dist = np.linalg.norm(err)
    if dist > 1e-6:
        check("away", r[:2] @ err > 0, f"step {r[:2]} while the target is at {err}")
        check("away", abs(np.cross(r[:2], err)) <= 1e-6 * dist * (1 + np.linalg.norm(r[:2])), f"step {r[:2]} while the target is at {err}")
    if 0.48 < dist < 0.52:
        return
    if dist > 0.5:
        mid = (goal[LEFT] + goal[RIGHT])[:3, 3] / 2
        half = np.array(prev.frame) @ np.array([0, (-0.5 if side == LEFT else 0.5) * p.feet_spacing, 0, 1])
        d = np.array(prev.frame)[:3, :3].T @ (mid - half[:3])
        want = math.atan2(d[1], d[0])
    else:
        want = yaw_of(D)
    if 0.02 < abs(want) < math.pi - 0.02:
        check("turns-away", r[2] * want > 0, f"turns by {r[2]} while {want} is needed, {dist} away")
        g.cls("turn-far" if dist > 0.5 else "turn-near")
    check("turns-too-much", abs(r[2]) <= abs(want) + 1e-6, f"turns by {r[2]} while {want} is needed, {dist} away")


def f_naive(g):
    p = parameters(g, timing=False)
    if g.boolean(0.7):
        p.walk_max_dtheta = g.pos(0.2, 0.8)
    pl = placo.FootstepsPlannerNaive(p)
    side = g.choice([LEFT, RIGHT])
    hist = []
    for _ in range(g.small(1, 2)):
        L, R = start_feet(g, p)
        if g.boolean(0.1):
            R[2, 3] = g.flt(-0.1, 0.3)
        near = g.weighted([(3, "far"), (1, "further"), (2, "place"), (1, "turn"), (1, "here")])
        D = {"far": 20 * p.walk_max_dx_forward, "further": 50 * p.walk_max_dx_forward, "place": 3 * p.walk_max_dx_forward, "turn": 1e-3, "here": 0.0}[near]
        GL = flat(L[0, 3] + D * g.flt(-1, 1), L[1, 3] + D * g.flt(-1, 1), yaw_of(L) if near == "here" else g.flt(-math.pi, math.pi), L[2, 3])
        lim = np.array([min(p.walk_max_dx_forward, p.walk_max_dx_backward), p.walk_max_dy, p.walk_max_dtheta])
        GR = opposite(p, LEFT, GL, g.choice([0.0, 0.3]) * lim * g.vec(3, -1, 1) / math.sqrt(3))
        if near == "here" and g.boolean():
            GL, GR = L, R
        # the goal must be a stance that each foot can join when the other one is there
        for sd, A, B in ((LEFT, GL, GR), (RIGHT, GR, GL)):
            T = np.linalg.inv(opposite(p, sd, A)) @ B
            if clip_norm("ellipsoid", p, [T[0, 3], T[1, 3], yaw_of(T)]) > 0.8 or abs(T[0, 3]) > 0.8 * p.walk_max_dx_forward:
                raise Discard
        if g.boolean(0.15):  # goals at another height: the plan stays on the ground
            GL, GR = GL.copy(), GR.copy()
            GL[2, 3], GR[2, 3] = g.flt(-0.2, 0.2), g.flt(-0.2, 0.2)
        pl.configure(GL, GR)
        fs = common(pl.plan(side, L, R), p, side, L, R)
        n = len(fs) - 2
        hist.append((near, n))
        check("bounded", n <= 100, f"{n} steps")
        for k in range(2, len(fs)):
            r = rel_step(p, fs[k - 1], fs[k])
            check("step-limits", clip_norm("ellipsoid", p, r) <= 1 + 1e-6, f"step {k}: {r}")
            toward(g, p, fs[k - 1], r, {LEFT: GL, RIGHT: GR})
        goal = {LEFT: GL, RIGHT: GR}
        gap = lambda f: np.abs((np.array(f.frame) - goal[f.side])[:2]).max()
        err = max(map(gap, fs[-2:]))
        if n < 100:
            check("goal-missed", err < 1e-6, f"{n} steps, still {err} from the goal")
        # a generous count of the steps needed: turning twice, walking, placing, both feet
        dist = np.hypot(*(GL - L)[:2, 3])
        need = 2 * (2 * math.pi / (0.6 * p.walk_max_dtheta)) + 2 * dist / (0.6 * p.walk_max_dx_forward) + 2 * min(dist, 0.5) / (0.5 * min(p.walk_max_dy, p.walk_max_dx_backward)) + 8
        if need < 100:
            check("goal-not-reached", err < 1e-6, f"{n} steps, {err} from the goal (about {need} needed)")
            g.cls("bounded-need")
        # it does not wander: no useless step once both feet are there
        for k in range(2, len(fs) - 2):
            e = max(map(gap, fs[k:k + 2]))
            check("wandering", e > 1e-9, f"at the goal after {k} footsteps of {len(fs)}")
        g.cls(near, "arrived" if err < 1e-6 else "out-of-steps")
    g.note(history=hist, side=str(side), limits=[p.walk_max_dx_forward, p.walk_max_dx_backward, p.walk_max_dy, p.walk_max_dtheta])
    g.nt(max(n for _, n in hist) >= 2)


def expected_supports(n, start, middle, end):
    """Supports as lists of footstep indices with flags, from the number of footsteps."""
    out = []
    if n > 2:
        out.append(([0, 1], "start") if start else ([0], ""))
        if not start and middle:
            out.append(([0, 1], ""))
        for k in range(1, n - 1):
            out.append(([k], ""))
            if middle and k != n - 2:
                out.append(([k, k + 1], ""))
    if end:
        out.append(([n - 2, n - 1], "end"))
    return out


def check_polygon(poly, feet, tag):
    """The polygon is the clockwise convex hull of the corners."""
    P = np.array([np.ravel(q) for q in poly])
    C = np.vstack(feet)
    check(tag, len(P) >= 4, f"{len(P)} corners")
    area = 0.5 * sum(P[i][0] * P[(i + 1) % len(P)][1] - P[(i + 1) % len(P)][0] * P[i][1] for i in range(len(P)))
    check(tag, area < 0, "not clockwise")
    for q in P:  # corners of the polygon are corners of the feet
        check(tag, np.min(np.linalg.norm(C - q, axis=1)) < 1e-9, f"{q} is not a corner of a foot")
    for i in range(len(P)):  # every corner of the feet is on the right of every edge
        e = P[(i + 1) % len(P)] - P[i]
        n = np.array([e[1], -e[0]]) / max(np.linalg.norm(e), 1e-12)
        check(tag, (C - P[i]).dot(n).min() > -1e-9, "a corner of a foot is outside")


def f_supports(g):
    p = parameters(g, timing=False)
    L, R = start_feet(g, p)
    side = g.choice([LEFT, RIGHT])
    pl = placo.FootstepsPlannerRepetitive(p)
    lim = np.array([p.walk_max_dx_forward, p.walk_max_dy, p.walk_max_dtheta])
    n = g.weighted([(1, 0), (1, 1), (6, g.integer(2, 8)), (1, g.integer(9, 40))])
    step = g.vec(3, -1, 1) * lim
    pl.configure(float(step[0]), float(step[1]), float(step[2]), n)
    fs = pl.plan(side, L, R)
    start, middle, end = g.boolean(0.7), g.boolean(), g.boolean(0.8)
    t0 = g.flt(-20, 20)
    sup = placo.FootstepsPlanner.make_supports(fs, t0, start, middle, end)
    exp = expected_supports(len(fs), start, middle, end)
    g.note(footsteps=len(fs), start=start, middle=middle, end=end)
    g.nt(len(fs) >= 4)
    g.cls("start" if start else "ongoing", "middle" if middle else "direct", "end" if end else "open")
    if len(fs) == 2 and not start:
        raise Discard  # no phase to start from
    check("supports-count", len(sup) == len(exp), f"{len(sup)} supports, {len(exp)} expected")
    F = [np.array(f.frame) for f in fs]
    for k, (s, (ids, flag)) in enumerate(zip(sup, exp)):
        check("support-feet", len(s.footsteps) == len(ids), f"support {k}")
        for f, i in zip(s.footsteps, ids):
            check("support-side", f.side == fs[i].side, f"support {k}")
            close("support-frame", f.frame, F[i], atol=1e-12, msg=f"support {k}")
            close("support-footstep-frame", s.footstep_frame(fs[i].side), F[i], atol=1e-12)
        check("support-flags", s.start == (flag == "start") and s.end == (flag == "end"), f"support {k}: {s.start} {s.end}")
        check("support-both", s.is_both() == (len(ids) == 2), f"support {k}")
        if k == 0 and len(fs) > 2:
            close("first-t-start", s.t_start, t0, atol=1e-12)
        elif len(fs) > 2:
            check("t-start-unset", s.t_start == -1, f"support {k} starts at {s.t_start}, like the first")
        if len(ids) == 1:
            check("support-single-side", s.side() == fs[ids[0]].side, f"support {k}")
            raises("missing-foot", lambda: s.footstep_frame(other(s.side())))
            close("single-frame", s.frame(), F[ids[0]], atol=1e-9)
        else:
            raises("side-of-both", lambda: s.side())
            A, B = F[ids[0]], F[ids[1]]
            M = flat(*((A + B) / 2)[:2, 3], yaw_of(A) + wrap(yaw_of(B) - yaw_of(A)) / 2, A[2, 3])
            close("middle-frame", s.frame(), M, atol=1e-8)
        check_polygon(s.support_polygon(), [rect(F[i], p.foot_length, p.foot_width) for i in ids], "support-polygon")
        check("defaults", s.elapsed_ratio == 0 and s.time_ratio == 1, "")
    if len(sup) and g.boolean(0.3):
        # finding a support: it is one with the same feet at the same places
        k = g.integer(0, len(sup) - 1)
        s = placo.Supports()
        s.append(sup[k])
        check("found", s[0] in sup and sup[k] in s, "")
        x = s[0]
        i = g.integer(0, len(x.footsteps) - 1)
        T = np.array(x.footsteps[i].frame)
        T[:2, 3] += g.unit(2) * g.pos(1e-5, 1.0)
        x.footsteps[i].frame = T
        check("moved-found", sup[k] not in s, f"foot {i} moved to {T}")
        check("moved-found", x.footsteps[i] not in sup[k].footsteps or any(f.side == x.footsteps[i].side and np.allclose(f.frame, T, atol=1e-9) for f in sup[k].footsteps), "")
    if len(fs) > 2 and g.boolean(0.2):
        # more feet than two: the middle of all
        s = placo.Support()
        m = g.integer(3, min(6, len(fs))) if len(fs) > 3 else 3
        s.footsteps = placo.Footsteps()
        for f in list(fs)[:m]:
            s.footsteps.append(f)
        if len(s.footsteps) == m:
            close("many-frame", np.array(s.frame())[:3, 3], np.mean([T[:3, 3] for T in F[:m]], axis=0), atol=1e-8)
            check_polygon(s.support_polygon(), [rect(T, p.foot_length, p.foot_width) for T in F[:m]], "many-polygon")
            g.cls("many")
    if sup and g.boolean(0.6):  # moving a support moves everything
        k = g.integer(0, len(sup) - 1)
        s, ids = sup[k], exp[k][0]
        off = g.vec(2, -1, 1)
        s.support_polygon()
        s.apply_offset(off)
        G = []
        for i in ids:
            T = F[i].copy()
            T[:2, 3] += off
            G.append(T)
        for f, T in zip(s.footsteps, G):
            close("offset-frame", f.frame, T, atol=1e-9)
        check_polygon(s.support_polygon(), [rect(T, p.foot_length, p.foot_width) for T in G], "offset-polygon")
        if g.boolean():
            T2 = flat(*g.vec(3, -1, 1))
            s.footsteps[0].frame = T2
            G[0] = T2
            check_polygon(s.support_polygon(), [rect(T, p.foot_length, p.foot_width) for T in G], "moved-polygon")
    elif sup and end and len(sup) >= 2:  # truncation
        idx = g.integer(1, len(sup))
        add = g.boolean(0.7)
        head = placo.FootstepsPlanner.truncate_supports(sup, idx, add)
        closing = add and not exp[idx - 1][1] == "end"
        check("truncated-count", len(head) == idx + closing, f"{len(head)}")
        for k in range(idx):
            close("truncated", head[k].footsteps[0].frame, sup[k].footsteps[0].frame, atol=1e-12)
            check("truncated-feet", len(head[k].footsteps) == len(sup[k].footsteps), "")
        if closing:
            e = head[idx]
            check("truncated-end", e.end and not e.start and e.is_both(), "")
            i = exp[idx - 1][0][0]
            sides = sorted(str(f.side) for f in e.footsteps)
            check("truncated-end-sides", sides == ["left", "right"], f"{sides}")
            for f, j in zip(e.footsteps, (i, i + 1)):
                close("truncated-end-feet", f.frame, F[j], atol=1e-12)
        g.cls("truncated")


def f_footsteps(g):
    """Polygons, containment, overlap and opposite footsteps of arbitrary feet, with a history of moves."""
    p = parameters(g, timing=False)
    pl = placo.FootstepsPlannerRepetitive(p)
    a = placo.Footstep(p.foot_width, p.foot_length)
    b = placo.Footstep(g.pos(0.03, 0.3), g.pos(0.03, 0.3)) if g.boolean(0.3) else placo.Footstep(p.foot_width, p.foot_length)
    a.side, b.side = LEFT, RIGHT
    log = []
    A = B = None
    for _ in range(g.integer(1, 5)):
        A = flat(g.flt(-1, 1), g.flt(-1, 1), g.flt(-math.pi, math.pi))
        a.frame = A
        d = max(p.foot_length, p.foot_width)
        B = A @ flat(d * g.flt(-1.5, 1.5), d * g.flt(-1.5, 1.5), g.weighted([(1, 0.0), (1, math.pi / 2), (4, g.flt(-math.pi, math.pi))]))
        b.frame = B
        if g.boolean(0.3):
            x, y = g.flt(-1, 1), g.flt(-1, 1)
            b.set_frame_xy(x, y)
            B = B.copy()
            B[:2, 3] = [x, y]
        for f, T in ((a, A), (b, B)):
            close("frame", f.frame, T, atol=1e-12)
            check_polygon(f.support_polygon(), [rect(T, f.foot_length, f.foot_width)], "footstep-polygon")
        m = g.weighted([(3, 0.0), (2, 0.01), (2, g.flt(0, 0.1)), (1, g.flt(-0.4, 0) * min(a.foot_width, a.foot_length, b.foot_width, b.foot_length))])
        gap = separation(rect(A, a.foot_length, a.foot_width, m), rect(B, b.foot_length, b.foot_width, m))
        if abs(gap) > 1e-9:
            check("overlap", a.overlap(b, m) == (gap < 0), f"gap {gap} with a margin of {m}, overlap {a.overlap(b, m)}")
            check("overlap-symmetric", b.overlap(a, m) == (gap < 0), f"gap {gap}")
            log.append("overlap" if gap < 0 else "apart")
        q = A[:2, 3] + d * g.vec(2, -1, 1)
        inside = hull_contains(rect(A, a.foot_length, a.foot_width), q)
        if abs(inside) > 1e-9:
            check("contains", placo.Footstep.polygon_contains(a.support_polygon(), q) == (inside > 0), f"depth {inside}")
        side = g.choice([LEFT, RIGHT])
        a.side = side
        st = g.vec(3, -1, 1) * np.array([p.walk_max_dx_forward, p.walk_max_dy, p.walk_max_dtheta])
        o = pl.opposite_footstep(a, *map(float, st))
        check("opposite-side", o.side == other(side), "")
        close("opposite-frame", o.frame, opposite(p, side, A, st), atol=1e-9)
        check_polygon(o.support_polygon(), [rect(opposite(p, side, A, st), a.foot_length, a.foot_width)], "opposite-polygon")
        want, _ = clipped_step(p, side, st, "conic")
        if want is not None:
            o = pl.clipped_opposite_footstep(a, *map(float, st))
            close("clipped-opposite-frame", o.frame, opposite(p, side, A, want), atol=1e-9)
            check("clipped-opposite-side", o.side == other(side), "")
            check_polygon(o.support_polygon(), [rect(opposite(p, side, A, want), a.foot_length, a.foot_width)], "clipped-opposite-polygon")
    g.note(log=log)
    g.nt(abs(math.sin(2 * (yaw_of(B) - yaw_of(A)))) > 1e-3)
    g.cls(*log)


FACETS = [
    Facet("repetitive", f_repetitive, 3000, 50000, "two steps or more"),
    Facet("naive", f_naive, 1500, 25000, "two steps or more"),
    Facet("supports", f_supports, 2500, 40000, "four footsteps or more"),
    Facet("footsteps", f_footsteps, 3000, 50000, "feet not aligned"),
]
