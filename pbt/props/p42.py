"""P42: step clipping always yields a feasible step and keeps feasible ones."""
import math
import numpy as np
import placo
from engine import Facet, Violation, Discard, close, check
from walk import *

RULE = "A case is a set of walk parameters and a step; non-trivial when the step is beyond the limits (clipping), or when two timings differ."
RULES = ["ellipsoid", "box", "conic"]


def step_for(g, p):
    k = g.weighted([(2, "inside"), (3, "around"), (3, "beyond"), (1, "huge"), (2, "axis"), (1, "border")])
    lim = np.array([p.walk_max_dx_forward, p.walk_max_dy, p.walk_max_dtheta])
    d = g.vec(3, -1, 1)
    if k == "inside":
        return 0.5 * d * lim
    if k == "around":
        return 1.3 * d * lim
    if k == "beyond":
        return 5 * d * lim
    if k == "huge":
        return 1e3 * d
    if k == "border":
        r = g.choice(RULES)
        n = clip_norm(r, p, d * lim)
        return d * lim / n * (1 + g.choice([-1, 1]) * g.choice([1e-3, 1e-5, 1e-7])) if n > 0 else d * lim
    s = np.zeros(3)
    i = g.integer(0, 2)
    s[i] = 3 * d[i] * lim[i]
    return s


def limits(p, r, tag, eps=1e-9):
    check(tag, -p.walk_max_dx_backward * (1 + eps) <= r[0] <= p.walk_max_dx_forward * (1 + eps), f"dx {r[0]} not in [-{p.walk_max_dx_backward}, {p.walk_max_dx_forward}]")
    check(tag, abs(r[1]) <= p.walk_max_dy * (1 + eps), f"dy {r[1]} over {p.walk_max_dy}")
    check(tag, abs(r[2]) <= p.walk_max_dtheta * (1 + eps), f"dtheta {r[2]} over {p.walk_max_dtheta}")


def f_clip(g):
    p = parameters(g, timing=False)
    s = step_for(g, p)
    rule = g.choice(RULES)
    n = clip_norm(rule, p, s)
    before = s.copy()
    r = np.array(getattr(p, rule + "_clip")(s))
    close("argument-changed", s, before, atol=0)
    g.note(rule=rule, step=s, limits=[p.walk_max_dx_forward, p.walk_max_dx_backward, p.walk_max_dy, p.walk_max_dtheta], size=n)
    g.nt(n > 1)
    g.cls(rule, "beyond" if n > 1 else "inside", "backward" if s[0] < 0 else "forward")
    limits(p, r, "limits")
    check("rule-limit", clip_norm(rule, p, r) <= 1 + 1e-9, f"{clip_norm(rule, p, r)}")
    if n <= 1:
        close("feasible-changed", r, s, atol=1e-12)
    else:
        # shrunk along its direction, no more than needed
        close("direction", r, s / n, atol=1e-12, rtol=1e-9)
        check("over-shrunk", clip_norm(rule, p, r) >= 1 - 1e-9, f"{clip_norm(rule, p, r)}")
    close("idempotent", getattr(p, rule + "_clip")(r), r, atol=1e-12, rtol=1e-9)


def f_overlap(g):
    p = parameters(g, timing=False)
    if g.boolean(0.3):  # limits allowing to step on the support foot
        p.walk_max_dy = p.feet_spacing * g.pos(0.3, 2.0)
        p.walk_max_dtheta = g.pos(0.3, 3.0)
    s = step_for(g, p)
    rule = g.choice(RULES)
    side = g.choice([LEFT, RIGHT])
    r = np.array(getattr(p, rule + "_overlap_clip")(side, s))
    want, k = clipped_step(p, side, s, rule)
    if want is None:
        raise Discard
    g.note(rule=rule, side=str(side), step=s, shrinks=k)
    n = clip_norm(rule, p, s)
    g.nt(n > 1 or k > 0)
    g.cls(rule, str(side), "overlap" if k else "clear", "beyond" if n > 1 else "inside")
    limits(p, r, "overlap-limits", 1e-7)
    A = rect(np.eye(4), p.foot_length, p.foot_width, 1e-2)
    gap = separation(A, rect(opposite(p, side, np.eye(4), r), p.foot_length, p.foot_width, 1e-2))
    if k < 32:
        check("overlapping", gap > -1e-9, f"the feet overlap by {-gap} after {r}")
    close("overlap-step", r, want, atol=1e-9, rtol=1e-9)
    if n <= 1 and k == 0 and s[2] == 0:
        close("feasible-changed-overlap", r, s, atol=1e-9)


def f_timings(g):
    p = parameters(g, timing=True)
    if g.boolean(0.3):
        p.double_support_ratio = g.flt(0, 3)
    if g.boolean(0.3):  # halves of a timestep
        p.single_support_timesteps = g.integer(1, 40)
        p.double_support_ratio = g.integer(0, 3 * p.single_support_timesteps) / (2 * p.single_support_timesteps)
        p.startend_double_support_ratio = g.integer(0, 12) / 4
    n, d = p.single_support_timesteps, p.single_support_duration
    g.note(timesteps=n, duration=d, ratios=[p.double_support_ratio, p.startend_double_support_ratio])
    close("dt", p.dt(), d / n, rtol=1e-12)
    for ratio, steps, dur in ((p.double_support_ratio, p.double_support_timesteps(), p.double_support_duration()),
                              (p.startend_double_support_ratio, p.startend_double_support_timesteps(), p.startend_double_support_duration())):
        check("timesteps", abs(steps - ratio * n) <= 0.5 + 1e-9, f"{steps} steps for {ratio} * {n}")
        if ratio * n % 1 == 0.5:
            check("half-timestep", steps == ratio * n + 0.5, f"{steps} steps for {ratio} * {n}")
        close("duration", dur, steps * d / n, rtol=1e-12)
    check("has-double-support", p.has_double_support() == (p.double_support_timesteps() > 0), "")
    g.nt(p.double_support_ratio != p.startend_double_support_ratio)
    g.cls("double" if p.has_double_support() else "single")


FACETS = [
    Facet("clip", f_clip, 8000, 150000, "the step is beyond the limits of the rule"),
    Facet("overlap", f_overlap, 6000, 100000, "the step is beyond the limits or overlaps"),
    Facet("timings", f_timings, 2000, 30000, "the two double support ratios differ"),
]
