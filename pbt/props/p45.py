"""P45: replanning, transforming and querying a walk never makes it jump."""
import math
import numpy as np
import placo
from engine import Facet, Violation, Discard, close, check, raises
from walk import *
from props.p44 import make, check_com, check_feet, check_trunk, check_parts, foot, horizon

RULE = "A case is a planned walk followed by a history of queries, transforms, replans and refused replans."


def build(g, nmax=8):
    p, pl, fs, sup, ph, t0, com, lip, slack = make(g, nmax)
    if slack is None or slack < 1e-3:
        raise Discard
    w = placo.WalkPatternGenerator(humanoid(), p)
    return p, pl, w, ph, w.plan(sup, com, t0)


def planar(g, far=3.0):
    return flat(g.flt(-far, far), g.flt(-far, far), g.flt(-3.2, 3.2))


def rigid(g):
    T = flat(g.flt(-2, 2), g.flt(-2, 2), g.flt(-3.2, 3.2), g.flt(-1, 1))
    a, b = g.flt(-0.5, 0.5), g.flt(-0.5, 0.5)
    T[:3, :3] = T[:3, :3] @ np.array([[1, 0, 0], [0, math.cos(a), -math.sin(a)], [0, math.sin(a), math.cos(a)]]) @ \
        np.array([[math.cos(b), 0, math.sin(b)], [0, 1, 0], [-math.sin(b), 0, math.cos(b)]])
    return T


def support_data(s):
    return dict(feet={("L" if f.side == LEFT else "R"): np.array(f.frame) for f in s.footsteps}, start=s.start, end=s.end,
                t_start=s.t_start, elapsed=s.elapsed_ratio, ratio=s.time_ratio, dcm=np.array(s.target_world_dcm))


def move(d, T):
    out = dict(d)
    out["feet"] = {k: T @ v for k, v in d["feet"].items()}
    out["dcm"] = (T @ np.array([*d["dcm"], 0, 1]))[:2]
    return out


def same(tag, a, b, msg="", atol=1e-9):
    check(tag, sorted(a["feet"]) == sorted(b["feet"]), f"{msg}: feet {sorted(a['feet'])} vs {sorted(b['feet'])}")
    for k in a["feet"]:
        close(tag, a["feet"][k], b["feet"][k], atol=atol, msg=f"{msg} {k} foot")
    check(tag, a["start"] == b["start"] and a["end"] == b["end"], f"{msg}: start/end flags")
    for k in ("t_start", "elapsed", "ratio"):
        close(tag, a[k], b[k], atol=1e-9, msg=f"{msg} {k}")
    close(tag, a["dcm"], b["dcm"], atol=atol, msg=f"{msg} target dcm")


def snapshot(tr, t, om):
    return dict(left=np.array(tr.get_T_world_left(t)), right=np.array(tr.get_T_world_right(t)), com=np.array(tr.get_p_world_CoM(t)),
                vcom=np.array(tr.get_v_world_CoM(t)), acom=np.array(tr.get_a_world_CoM(t)), jcom=np.array(tr.get_j_world_CoM(t)),
                trunk=np.array(tr.get_R_world_trunk(t)), vl=np.array(tr.get_v_world_foot(LEFT, t)), vr=np.array(tr.get_v_world_foot(RIGHT, t)),
                zmp=np.array(tr.get_p_world_ZMP(t, om)), dcm=np.array(tr.get_p_world_DCM(t, om)))


def moved(s, T):
    R = T[:3, :3]
    out = dict(left=T @ s["left"], right=T @ s["right"], com=R @ s["com"] + T[:3, 3], trunk=R @ s["trunk"])
    for k in ("vcom", "acom", "jcom", "vl", "vr"):
        out[k] = R @ s[k]
    return out


def f_queries(g):
    """Queries in any order and number, and transforms: every query follows the transforms and nothing else."""
    p, pl, w, ph, tr = build(g, 5)
    om = math.sqrt(G / p.walk_com_height)
    t0, t1 = ph[0].t0, ph[-1].t1
    ref = [support_data(s) for s in tr.get_supports()]
    # a time of each phase, away from the shared instants
    times = [(i, ph[i].t0 + g.flt(0.03, 0.97) * ph[i].duration) for i in range(len(ph))]
    snap = {t: snapshot(tr, t, om) for _, t in times}
    rel = {t: (np.array(tr.get_p_support_CoM(t)), np.array(tr.get_v_support_CoM(t)), np.array(tr.get_p_support_DCM(t, om))) for i, t in times if not ph[i].both}
    for i, (f, d) in enumerate(zip(ph, ref)):
        T = ph[i].feet
        check("support-feet", len(d["feet"]) == len(T), "")
        close("target-dcm", d["dcm"], np.array(tr.get_p_world_DCM(f.t1 if i == len(ph) - 1 else f.t1 - 1e-9 * f.duration, om)), atol=1e-6, msg=f"part {i}")
        close("support-t-start", d["t_start"], f.t0, atol=1e-9)
    T = np.eye(4)
    flat_T = True
    n = g.integer(4, 25)
    g.note(supports=len(ph), operations=n)
    moves = 0
    for _ in range(n):
        op = g.weighted([(2, "planar"), (1, "rigid"), (8, "pose"), (4, "supports"), (4, "timing"), (3, "relative")])
        i, t = g.choice(times)
        f = ph[i]
        if op == "planar":
            M = planar(g)
            tr.apply_transform(M)
            T = M @ T
            moves += 1
        elif op == "rigid":
            M = rigid(g)
            tr.apply_transform(M)
            T = M @ T
            flat_T = False
            moves += 1
        elif op == "pose":
            got, want = snapshot(tr, t, om), moved(snap[t], T)
            for k, v in want.items():
                close("query-" + k, got[k], v, atol=1e-8 * (1 + np.abs(v).max()), msg=f"{k} at {t} (phase {i}) after {moves} transforms")
            close("query-zmp", got["zmp"], got["com"][:2] - got["acom"][:2] / om**2, atol=1e-9)
            close("query-dcm", got["dcm"], got["com"][:2] + got["vcom"][:2] / om, atol=1e-9)
            o = g.pos(0.2, 50)
            close("query-zmp", tr.get_p_world_ZMP(t, o), got["com"][:2] - got["acom"][:2] / o**2, atol=1e-9 * (1 + 1 / o**2))
            close("query-dcm", tr.get_p_world_DCM(t, o), got["com"][:2] + got["vcom"][:2] / o, atol=1e-9 * (1 + 1 / o))
        elif op == "supports":
            same("get-support", support_data(tr.get_support(t)), move(ref[i], T), f"support {i}")
            k = g.integer(1, len(ph) + 2)
            same("get-next", support_data(tr.get_next_support(t, k)), move(ref[min(i + k, len(ph) - 1)], T), f"next {k} of {i}")
            same("get-prev", support_data(tr.get_prev_support(t, k)), move(ref[max(i - k, 0)], T), f"previous {k} of {i}")
            S = tr.get_supports()
            check("supports-count", len(S) == len(ph), "")
            for k in range(len(ph)):
                same("get-supports", support_data(S[k]), move(ref[k], T), f"support {k}")
        elif op == "timing":
            close("part-t-start", tr.get_part_t_start(t), f.t0, atol=1e-9)
            close("part-t-end", tr.get_part_t_end(t), f.t1, atol=1e-9)
            check("support-both", tr.support_is_both(t) == f.both, f"phase {i}")
            if not f.both:
                check("support-side", tr.support_side(t) == list(f.feet)[0], f"phase {i}")
            if flat_T:
                close("part-end-dcm", tr.get_part_end_dcm(t, om), move(ref[i], T)["dcm"], atol=1e-6)
            close("times", [tr.t_start, tr.t_end], [t0, t1], atol=1e-9)
        elif op == "relative" and flat_T and not f.both:
            S = np.linalg.inv(f.feet[list(f.feet)[0]])
            q, v, d = np.array(tr.get_p_support_CoM(t)), np.array(tr.get_v_support_CoM(t)), np.array(tr.get_p_support_DCM(t, om))
            close("support-com", q, (S @ np.array([*snap[t]["com"], 1]))[:3], atol=1e-8, msg=f"phase {i}")
            close("support-velocity", v, S[:3, :3] @ snap[t]["vcom"], atol=1e-8 * (1 + np.abs(v).max()))
            close("support-dcm", d, q[:2] + v[:2] / om, atol=1e-9)
    g.nt(moves > 0 and len(ph) >= 3)
    g.cls(f"moves{min(moves, 3)}", "tilted" if not flat_T else "planar")


def rate(fn, t, h):
    """Derivative of a cubic of the time (exact up to rounding)."""
    a = [fn(t + k * h) for k in (-2, -1, 1, 2)]
    return (a[0] - 8 * a[1] + 8 * a[2] - a[3]) / (12 * h)


def yaw_near(R, ref):
    return ref + wrap(math.atan2(R[1, 0], R[0, 0]) - ref)


def identical(tag, a, b, times, om, msg):
    for t in times:
        x, y = snapshot(a, t, om), snapshot(b, t, om)
        for k in x:
            close(tag, x[k], y[k], atol=1e-9 * (1 + np.abs(y[k]).max()), msg=f"{msg}: {k} at {t}")


def f_replan(g):
    """A history of replans (new plans, transforms, impossible ones) of a walk."""
    p, pl, w, ph, tr = build(g, 8)
    om = math.sqrt(G / p.walk_com_height)
    done = refused = cannot = 0
    nops = g.integer(1, 4)
    for _ in range(nops):
        if g.boolean(0.3):
            T = planar(g)
            tr.apply_transform(T)
            for f in ph:
                f.move(T)
        singles = [k for k in range(len(ph)) if not ph[k].both]
        i = g.weighted([(4, g.choice(singles)), (1, g.integer(0, len(ph) - 1))])
        f = ph[i]
        u = g.flt(0.03, 0.97)
        t = f.t0 + u * f.duration
        cur, nxt = tr.get_support(t), tr.get_next_support(t, 1)
        possible = not f.both and not (i + 1 < len(ph) and ph[i + 1].end) and not f.end and not f.start
        check("can-replan", w.can_replan_supports(tr, t) == possible, f"phase {i} of {len(ph)}, both {f.both}")
        # the walk keeps going with new footsteps
        if g.boolean(0.8):
            st = g.vec(3, -1, 1) * np.array([p.walk_max_dx_forward, p.walk_max_dy, p.walk_max_dtheta]) * g.choice([0.5, 1.0])
            pl = placo.FootstepsPlannerRepetitive(p)
            pl.configure(*map(float, st), g.integer(1, 6))
        if not possible:
            raises("replan-accepted", lambda: w.replan_supports(pl, tr, t, tr.t_start))
            cannot += 1
            continue
        sup = w.replan_supports(pl, tr, t, tr.t_start)
        side = list(f.feet)[0]
        # the current support goes on, and lasts what remained of it
        s0 = sup[0]
        check("current-support", len(s0.footsteps) == 1 and s0.footsteps[0].side == side and not s0.start and not s0.end, "")
        close("current-support", np.array(s0.footsteps[0].frame), f.feet[side], atol=1e-9)
        close("time-ratio", s0.time_ratio, f.ratio, atol=1e-12)
        close("elapsed", s0.elapsed_ratio, 1 - (f.t1 - t) / (f.default * f.ratio), atol=1e-9)
        # the swing in progress lands where planned
        lands = [fs for fs in sup[1].footsteps if fs.side != side]
        check("landing", len(lands) == 1, "the next support does not hold the flying foot")
        land = ph[i + 1].feet[other(side)]
        close("landing", np.array(lands[0].frame), land, atol=1e-9)
        check("ends", sup[len(sup) - 1].end, "")
        feet = {side: f.feet[side], other(side): land}
        fs = pl.plan(side, feet[LEFT], feet[RIGHT])
        want = placo.FootstepsPlanner.make_supports(fs, cur.t_start, False, p.has_double_support(), True)
        check("supports", len(want) == len(sup), f"{len(sup)} supports rather than {len(want)}")
        for k in range(len(sup)):
            a, b = support_data(sup[k]), support_data(want[k])
            if k == 0:
                b["elapsed"], b["ratio"] = a["elapsed"], a["ratio"]
            same("supports", a, b, f"support {k}")
        if len(sup) > 30:
            raise Discard
        force = g.boolean(0.15)
        if force:  # a plan that cannot be reached
            k = g.integer(1, len(sup) - 1)
            d = np.array([g.choice([-1, 1]) * g.choice([1.0, 10.0]), g.flt(-1, 1)])
            for q in range(k, len(sup)):
                sup[q].apply_offset(d)
        nph = phases_of(p, sup, t)
        if nph[-1].t1 - t > 10 or sum(q.n for q in nph) > 160:
            raise Discard
        init = np.array([np.array(tr.get_p_world_CoM(t))[:2], np.array(tr.get_v_world_CoM(t))[:2], np.array(tr.get_a_world_CoM(t))[:2]])
        lip = Lip(p, nph, init)
        slack = lip.slack()
        if slack is None:
            raise Discard
        # what the walk does at t
        h = 0.2 * min(t - f.t0, f.t1 - t)
        fly = other(side)
        A, v = foot(tr, fly, t)[:3, 3], np.array(tr.get_v_world_foot(fly, t))
        y0 = yaw_of(foot(tr, fly, t))
        dy = rate(lambda x: yaw_near(foot(tr, fly, x), y0), t, h)
        trunk = lambda x: np.array(tr.get_R_world_trunk(x))
        c, s = math.cos(p.walk_trunk_pitch), math.sin(p.walk_trunk_pitch)
        Ry = np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])
        ty = math.atan2(*(trunk(t) @ Ry.T)[[1, 0], 0])
        tdy = rate(lambda x: yaw_near(trunk(x) @ Ry.T, ty), t, h)
        before = snapshot(tr, t, om)
        check_times = [t + k * (tr.t_end - t) for k in (0.0, 0.13, 0.31, 0.5, 0.74, 0.99)]
        new = w.replan(sup, tr, t)
        if slack > 2e-3:
            check("not-replanned", new.replan_success, f"a plan exists with {slack} of room")
        elif slack < -2e-3:
            check("impossible-replanned", not new.replan_success, f"no plan within {-slack} of the constraints")
        after = snapshot(new, t, om)
        j = 1 + np.abs(before["acom"]).max() + np.abs(before["vcom"]).max()
        for k in before:
            if k != "jcom":
                close("jump-" + k, after[k], before[k], atol=1e-7 * j, msg=f"{k} at the replan time")
        if new.replan_success and force:
            raise Discard
        if new.replan_success:
            check_parts(p, new, nph)
            check_com(p, new, lip, nph, init)
            check_feet(p, new, nph, (A, v, y0, dy))
            check_trunk(p, new, nph, (ty, tdy))
            for k, q in enumerate(new.get_supports()):
                close("support-start", q.t_start, cur.t_start if k == 0 else nph[k].t0, atol=1e-9, msg=f"support {k}")
            done += 1
            tr, ph = new, nph
        else:
            close("kept-times", [new.t_start, new.t_end], [t, ph[-1].t1], atol=1e-9)
            identical("kept", new, tr, check_times, om, "the walk after a refused replan")
            old = ph[i:]
            old[0].t0, old[0].elapsed = t, s0.elapsed_ratio
            old[0].duration = old[0].t1 - t
            S = new.get_supports()
            check("kept-supports", len(S) == len(old), f"{len(S)} supports left, {len(old)} expected")
            for k in range(len(S)):
                for q in S[k].footsteps:
                    close("kept-supports", np.array(q.frame), old[k].feet[q.side], atol=1e-9)
                close("kept-elapsed", S[k].elapsed_ratio, old[k].elapsed, atol=1e-9)
            P = new.parts
            for k in range(len(P)):
                close("kept-parts", [P[k].t_start, P[k].t_end], [old[k].t0, old[k].t1], atol=1e-9)
            refused += 1
            tr, ph = new, old
    g.note(replans=done, refused=refused, cannot=cannot)
    g.nt(done > 0)
    g.cls(f"replans{min(done, 3)}", *(["refused"] if refused else []), *(["cannot"] if cannot else []), "double" if p.has_double_support() else "direct")


FACETS = [
    Facet("queries", f_queries, 200, 3000, "at least one transform of a walk of three supports or more"),
    Facet("replan", f_replan, 300, 5000, "at least one successful replan"),
]
