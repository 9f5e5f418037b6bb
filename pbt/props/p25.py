"""P25: a kinematics solver's outcome depends only on its live items."""
import math
import numpy as np
import placo
import kin
import qp
import robots as rb
from engine import Facet, Violation, Discard, close, check, raises

RULE = "A case is a robot and a history of operations on one kinematics solver; each solve is compared with a fresh solver holding the live items only. Non-trivial when at least one item was removed, reconfigured or retargeted, and a solve followed."

REG = 1e-4


def retarget(g, c, t, h, q):
    """Changes the target of a live task through its setters. Returns False when this kind has none."""
    goal = rb.integ(c.m, q, g.gauss_vec(c.nv) * 0.2)
    k = t.kind
    if k == "position":
        t.target = c.T(goal, t.f)[:3, 3]
        h.target_world = t.target
    elif k == "orientation":
        t.R = c.T(goal, t.f)[:3, :3]
        h.R_world_frame = t.R
    elif k == "relative_position":
        t.target = t.val(goal)
        h.target = t.target
    elif k == "relative_orientation":
        t.R = t.val(goal)
        h.R_a_b = t.R
    elif k == "com":
        t.target = c.com(goal)
        h.target_world = t.target
    elif k == "distance":
        t.dist = float(np.linalg.norm(t.vec(goal)))
        h.distance = t.dist
    elif k == "joints":
        j = g.choice(c.names)
        t.t = dict(t.t)
        t.t[j] = float(goal[c.iq[j]])
        h.set_joint(j, t.t[j])
    elif k == "frame":
        t.Tt = c.T(goal, t.f)
        t.pos.target, t.ori.R = t.Tt[:3, 3], t.Tt[:3, :3]
        h.T_world_frame = t.Tt
    elif k == "relative_frame":
        t.Tt = np.linalg.inv(c.T(goal, t.a)) @ c.T(goal, t.b)
        t.pos.target, t.ori.R = t.Tt[:3, 3], t.Tt[:3, :3]
        h.T_a_b = t.Tt
    elif k == "axisalign":
        if g.boolean():
            t.target = c.T(goal, t.f)[:3, :3] @ t.axis * g.pos(0.5, 2)
            h.targetAxis_world = t.target
        else:
            R, Rg = c.T(q, t.f)[:3, :3], c.T(goal, t.f)[:3, :3]
            t.axis = R.T @ (Rg @ (Rg.T @ (t.target / np.linalg.norm(t.target)) + 0.1 * g.gauss_vec(3)))
            h.axis_frame = t.axis
    elif k == "momentum":
        t.L = g.gauss_vec(3) * 0.1
        h.L_world = t.L
    elif k == "gear":
        tgt = g.choice(list(t.gears))
        src = g.choice([j for j in c.names if j != tgt] or [tgt])
        if src == tgt:
            return False
        t.gears = {k: dict(v) for k, v in t.gears.items()}
        ratio = g.flt(-2, 2, 0)
        if g.boolean():
            t.gears[tgt] = {src: ratio}
            h.set_gear(tgt, src, ratio)
        else:
            t.gears[tgt][src] = ratio
            h.add_gear(tgt, src, ratio)
    else:
        return False
    for a in ATTR.get(k, ()):
        want = {"target_world": lambda: t.target, "target": lambda: t.target, "R_world_frame": lambda: t.R, "R_a_b": lambda: t.R, "distance": lambda: t.dist,
                "T_world_frame": lambda: t.Tt, "T_a_b": lambda: t.Tt, "targetAxis_world": lambda: t.target, "axis_frame": lambda: t.axis, "L_world": lambda: t.L}[a]()
        close("read-back", np.asarray(getattr(h, a), float), want, atol=1e-12, msg=f"{k}.{a}")
    return True


ATTR = {"position": ["target_world"], "orientation": ["R_world_frame"], "relative_position": ["target"], "relative_orientation": ["R_a_b"], "com": ["target_world"],
        "distance": ["distance"], "frame": ["T_world_frame"], "relative_frame": ["T_a_b"], "axisalign": ["targetAxis_world", "axis_frame"], "momentum": ["L_world"]}


class Own:
    """A task made in Python and given to the solver with add_task."""

    def __init__(self, g, c, q):
        self.f = g.choice(c.frames)
        self.target = c.T(rb.integ(c.m, q, g.gauss_vec(c.nv) * 0.2), self.f)[:3, 3]
        self.obj = placo.PositionTask(c.robot.get_frame_index(self.f) if hasattr(c.robot, "get_frame_index") else c.m.getFrameId(self.f), self.target)
        self.spec = kin.Position(c, self.f, self.target)
        self.spec.priority = "soft"
        self.spec.weight = g.pos(0.1, 10)
        self.obj.configure("own", "soft", self.spec.weight)


def f_history(g):
    prios = ("soft", "hard", "scaled")
    sc = kin.gen_scene(g, n_tasks=2, reach=0.2, prios=prios)
    sc.reg0 = REG
    c, r = sc.c, sc.c.robot
    q = np.array(sc.q)
    goal = np.array(sc.goal)
    s = sc.build()
    live = {id(x): sc.handles[id(x)] for x in sc.tasks + sc.reg}
    own, log, dirty, solves = [], [], False, 0
    other = None
    g.cls("history")

    def count():
        n = 0
        for t in sc.tasks:
            n += len(t.parts())
        return n + len(sc.reg)

    n = g.integer(4, 14)
    for step in range(n):
        op = "solve" if step == n - 1 else g.weighted([(6, "solve"), (3, "add"), (3, "remove"), (2, "configure"), (2, "retarget"), (1, "clear"), (2, "constraint"), (2, "remove-constraint"),
                         (1, "mask"), (1, "unmask"), (1, "base"), (1, "limits"), (1, "dt"), (1, "fail"), (1, "move"), (1, "own"), (1, "reg"), (1, "unknown")])
        if op == "add":
            if len(sc.tasks) >= 5:
                continue
            ks = [k for k in kin.KINDS if not (k == "momentum" and sc.dt == 0)]
            t = kin.gen_task(g, c, goal, ks, dt=sc.dt or 1.0, spread=0.0)
            t.priority = g.weighted([(5, "soft"), (2, "hard"), (1, "scaled")])
            t.weight = g.pos(0.1, 10)
            if hasattr(t, "weight2"):
                t.weight2 = g.pos(0.1, 10)
            h = t.add(s)
            t.configure(h, f"t{step}")
            sc.tasks.append(t)
            live[id(t)] = h
        elif op == "remove":
            cand = [t for t in sc.tasks if t.kind != "own"] + list(sc.reg)
            if not cand:
                continue
            t = g.choice(cand)
            h = live.pop(id(t))
            if getattr(t, "own", None) is not None or not hasattr(t, "kind") or t.kind not in ("frame", "relative_frame"):
                s.remove_task(h)
            elif t.kind == "frame":
                s.remove_task(h)
            else:
                a, b = h.position(), h.orientation()
                s.remove_task(a)
                s.remove_task(b)
            if t in sc.tasks:
                sc.tasks.remove(t)
            else:
                sc.reg.remove(t)
            dirty = True
        elif op == "configure":
            cand = [t for t in sc.tasks if getattr(t, "own", None) is None]
            if not cand:
                continue
            t = g.choice(cand)
            t.priority = g.weighted([(5, "soft"), (2, "hard"), (1, "scaled")])
            t.weight = g.pos(0.1, 10)
            t.configure(live[id(t)], f"t{step}")
            dirty = True
        elif op == "retarget":
            if not sc.tasks:
                continue
            t = g.choice(sc.tasks)
            dirty = retarget(g, c, t, live[id(t)], q) or dirty
        elif op == "clear":
            s.clear()
            sc.tasks, sc.cons, sc.reg, live = [], [], [], {}
            dirty = True
        elif op == "constraint":
            k = kin.gen_con(g, c, q, sc.dt)
            if k is None or len(sc.cons) >= 3:
                continue
            k.priority, k.weight = g.choice(["hard", "soft"]), g.pos(0.1, 10)
            h = k.add(s)
            h.configure(f"c{step}", k.priority, k.weight)
            sc.cons.append(k)
            live[id(k)] = h
        elif op == "remove-constraint":
            if not sc.cons:
                continue
            k = g.choice(sc.cons)
            sc.cons.remove(k)
            s.remove_constraint(live.pop(id(k)))
            dirty = True
        elif op == "mask":
            j = g.choice(c.names)
            s.mask_dof(j)
            if j not in sc.masked:
                sc.masked.append(j)
        elif op == "unmask":
            j = g.choice(c.names)
            s.unmask_dof(j)
            dirty = dirty or j in sc.masked
            sc.masked = [k for k in sc.masked if k != j]
        elif op == "base":
            sc.mask_base = g.boolean()
            s.mask_fbase(sc.mask_base)
        elif op == "limits":
            sc.lim = g.boolean()
            s.enable_joint_limits(sc.lim)
            if sc.dt > 0:
                sc.vel = g.boolean()
                s.enable_velocity_limits(sc.vel)
        elif op == "dt":
            if any(t.kind == "momentum" for t in sc.tasks) or any(x[0] == "energy" for x in sc.reg) or any(getattr(k, "omega", None) for k in sc.cons) or any(k.kind == "com-polygon" for k in sc.cons):
                continue
            sc.dt = g.choice([0.005, 0.05, 0.2])
            s.dt = sc.dt
        elif op == "fail":
            # a solve that fails: velocity limits without a time step, or contradictory hard tasks
            if g.boolean() and sc.dt == 0 and not sc.vel:
                s.enable_velocity_limits(True)
                raises("fails", lambda: s.solve(True))
                s.enable_velocity_limits(False)
            else:
                f = c.frames[0]
                p = c.T(q, f)[:3, 3]
                a = s.add_position_task(f, p + 0.1)
                b = s.add_position_task(f, p - 0.1)
                a.configure("a", "hard", 1.0)
                b.configure("b", "hard", 1.0)
                raises("fails", lambda: s.solve(True))
                s.remove_task(a)
                s.remove_task(b)
            close("state-after-failure", r.state.q, q, atol=0)
            dirty = True
        elif op == "move":
            v = g.gauss_vec(c.nv) * 0.05
            q2 = rb.integ(c.m, q, v)
            for j in c.names:
                lo, up = sc.limits[j]
                if lo > -rb.BIG:
                    q2[c.iq[j]] = min(max(q2[c.iq[j]], lo), up)
            q = q2
            rb.set_q(r, q)
        elif op == "own":
            gone = [o for o in own if o.spec not in sc.tasks]
            if gone and g.boolean():
                o = g.choice(gone)  # taken back after its removal
            else:
                o = Own(g, c, q)
                own.append(o)
            o.spec.own = o
            if sc.robot_spec is not None and g.boolean(0.4):  # lent to another solver, of another robot
                if other is None:
                    robot2 = rb.make(sc.robot_spec)
                    other = placo.KinematicsSolver(robot2)
                other.add_task(o.obj)
                run(other)
                other.remove_task(o.obj)
                g.cls("lent")
            s.add_task(o.obj)
            sc.tasks.append(o.spec)
            live[id(o.spec)] = o.obj
        elif op == "reg":
            if sc.reg:
                if sc.reg[0][0] == "regularization":
                    x = sc.reg[0]
                    h = live.pop(id(x))
                    sc.reg[0] = kin.reweight(g, c, h, x)
                    live[id(sc.reg[0])] = h
                    dirty = True
                continue
            x = ("regularization", g.pos(1e-4, 1e-1), {j: g.pos(1e-4, 1.0) for j in c.names if g.boolean(0.2)})
            h = s.add_regularization_task(x[1])
            for j, w in x[2].items():
                h.set_joint_weight(j, w)
            sc.reg.append(x)
            live[id(x)] = h
        elif op == "unknown":
            raises("unknown-dof", lambda: s.mask_dof("no_such_joint"))
            raises("unknown-dof", lambda: s.unmask_dof("no_such_joint"))
            raises("unknown-frame", lambda: s.add_position_task("no_such_frame", np.zeros(3)))
            raises("unknown-frame", lambda: s.add_frame_task("no_such_frame", np.eye(4)))
            raises("unknown-frame", lambda: s.add_distance_task(c.frames[0], "no_such_frame", 1.0))
        log.append(op)
        check("tasks-count", s.tasks_count() == count(), lambda: f"{s.tasks_count()} instead of {count()} after {log}")
        if op != "solve":
            continue
        # domain: a feasible, well conditioned problem
        if kin.degenerate(sc, q) or not all(k.ok(q) for k in sc.cons):
            continue
        if any(k.kind == "self-collisions" for k in sc.cons):
            continue
        sp = sc.spec(q)
        defi, cond = kin.eq_conditioning(sp)
        if defi or cond < 1e-2 or kin.witness(sp) is None or kin.solver_tolerance(sp, REG) > 1e-6:
            continue
        fresh = sc.build()
        s.problem.regularization = REG
        got, want = run(s), run(fresh)
        if want is None:
            check("refused", got is None, lambda: f"the fresh solver refuses, not the used one, after {log}")
            continue
        check("refused", got is not None, lambda: f"the used solver refuses, not the fresh one, after {log}")
        close("history", got, want, atol=1e-5, rtol=1e-5, msg=f"after {log}")
        if sc.scaled():
            close("history-scale", s.scale, fresh.scale, atol=1e-5)
        solves += 1
        g.nt(dirty and np.abs(want).max() > 1e-5)
        close("state", r.state.q, q, atol=0)
        if g.boolean(0.3):
            try:
                dq = np.array(s.solve(True)).reshape(-1)
            except RuntimeError as e:
                raise Violation("repeat", f"the same solve fails the second time: {e}")
            close("repeat", dq, got, atol=1e-9, rtol=1e-9)
            q = np.array(r.state.q)
            if not np.all(np.isfinite(q)) or np.abs(dq).max() > 3:
                raise Discard
            r.update_kinematics()
    g.note(ops=log, **sc.describe())


def run(s):
    try:
        return np.array(s.solve(False)).reshape(-1)
    except RuntimeError:
        return None


FACETS = [
    Facet("history", f_history, 4000, 30000, "an item was removed, reconfigured, retargeted or unmasked (or a solve failed) before a compared solve with a displacement"),
]
