"""P51: status reports list exactly the live tasks, with their current state, and the counters of the problem."""
import os
import re
import sys
import tempfile
import numpy as np
import placo
import dyn
import kin
import qp
import robots as rb
from engine import Facet, Violation, Discard, close, check

RULE = "A case is a solver with generated tasks (or a problem), changed by a history of solves, moves, new targets, settings and removals; the report printed after each step is compared with the tasks that are alive and with their errors, recomputed. Non-trivial when something was changed before a report, or when an error is large."

TYPES = {"axisalign": "axis_align", "momentum": "centroidal_momentum"}


def printed(fun):
    """What fun() writes on the standard output of the process."""
    sys.stdout.flush()
    keep = os.dup(1)
    with tempfile.TemporaryFile() as f:
        os.dup2(f.fileno(), 1)
        try:
            fun()
            sys.stdout.flush()
        finally:
            os.dup2(keep, 1)
            os.close(keep)
        f.seek(0)
        return f.read().decode(errors="replace")


NUM = r"([-+0-9.einfa]+)"


def parse(text):
    """[{name, type, priority, weight, error, derror, units}], the scaling (or None)."""
    out, scaling = [], None
    for line in text.split("\n"):
        m = re.match(r"\s*\* Scaling: " + NUM, line)
        if m:
            scaling = float(m[1])
            continue
        m = re.match(r"\s*\* (.*) \[(\w+)\]\s*$", line)
        if m:
            out.append({"name": m[1], "type": m[2]})
            continue
        m = re.match(r"\s*- Priority: (\w+)(?: \(weight:" + NUM + r"\))?", line)
        if m:
            out[-1]["priority"], out[-1]["weight"] = m[1], None if m[2] is None else float(m[2])
            continue
        m = re.match(r"\s*- (D?Error): " + NUM + r" \[(.*)\]", line)
        if m:
            out[-1][m[1].lower()] = float(m[2])
            out[-1]["unit"] = m[3]
    return out, scaling


def same(tag, text, want):
    """The report against the list of dictionaries it should hold, in any order."""
    got, scaling = parse(text)
    key = lambda d: (d["type"], d["name"], round(d.get("error", 0.0), 3))
    check(f"{tag}-tasks", sorted((d["type"], d["name"]) for d in got) == sorted((d["type"], d["name"]) for d in want),
          lambda: f"reported {[(d['type'], d['name']) for d in got]}, alive {[(d['type'], d['name']) for d in want]}")
    for a, b in zip(sorted(got, key=key), sorted(want, key=key)):
        check(f"{tag}-priority", a.get("priority") == b["priority"], lambda: f"{a}, {b}")
        if b["priority"] == "soft":
            check(f"{tag}-weight", a["weight"] is not None and abs(a["weight"] - b["weight"]) <= 1e-4 * b["weight"], lambda: f"{a}, {b}")
        for e in ("error", "derror"):
            if e in b:
                check(f"{tag}-{e}", e in a and abs(a[e] - b[e]) <= 2e-6 + 1e-6 * abs(b[e]), lambda: f"{b['type']} {b['name']}: {a.get(e)} reported, {b[e]} expected")
    return scaling


def ambiguous(want):
    """Two tasks of one type and name with close errors cannot be told apart."""
    ks = sorted((d["type"], d["name"]) for d in want)
    return any(a == b for a, b in zip(ks, ks[1:]))


def drop(s, t, h):
    if t.kind == "relative_frame":  # removed by its two parts
        a, b = h.position(), h.orientation()
        s.remove_task(a)
        s.remove_task(b)
    else:
        s.remove_task(h)


def far(g):
    return g.weighted([(6, 1.0), (1, 1e3), (1, 1e9), (1, 1e30), (1, 1e150)])


def f_kinematics(g):
    sc = kin.gen_scene(g, n_tasks=4, reach=g.choice([0.3, 1.5]))
    sc.mask_base = g.boolean(0.3)
    s = sc.build()
    for n, t in enumerate(sc.tasks):  # every one has a name
        t.configure(sc.handles[id(t)], f"task{n}")
        t.label = f"task{n}"
    alive = list(sc.tasks)
    regs = [("regularization" if x[0] != "energy" else "kinetic_energy_regularization") for x in sc.reg]
    q, log = np.array(sc.q), []
    big = False
    for step in range(g.integer(1, 5)):
        op = g.choice(["nothing", "move", "solve", "remove", "far", "name", "solve"])
        if op == "move":
            q = rb.gen_q(g, sc.c.robot)
            rb.set_q(sc.c.robot, q)
        elif op == "solve":
            try:
                s.solve(False)
            except RuntimeError:
                op = "failed"
        elif op == "remove" and alive:
            t = alive.pop(g.integer(0, len(alive) - 1))
            drop(s, t, sc.handles[id(t)])
        elif op == "far":
            ts = [t for t in alive if t.kind in ("position", "com")]
            if ts:
                t = g.choice(ts)
                t.target = g.vec(3, -1, 1) * far(g)
                sc.handles[id(t)].target_world = t.target
                big = big or np.linalg.norm(t.target) > 1e6
        elif op == "name" and alive:
            t = g.choice(alive)
            t.label = g.choice(["x", "a name", "b" * g.integer(1, 200), f"other{step}"])
            t.weight = g.pos(1e-3, 1e3)
            t.configure(sc.handles[id(t)], t.label)
        log.append(op)
        want = []
        for t in alive:
            for p in t.parts():
                if p.kind in ("orientation", "relative_orientation"):
                    X = p.R @ (sc.c.T(q, p.f)[:3, :3].T if p.kind == "orientation" else p.val(q).T)
                    if np.trace(X) < -0.99:
                        raise Discard
                if p.kind == "wheel" and np.linalg.norm(np.cross(p.Ts[:3, 2], sc.c.T(q, p.joint)[:3, 2])) < 0.05:
                    raise Discard
                suffix = {"position": "_position", "orientation": "_orientation"}[p.kind.replace("relative_", "")] if p is not t else ""
                want.append({"type": TYPES.get(p.kind, p.kind), "name": t.label + suffix, "priority": t.priority, "weight": p.weight, "error": float(np.linalg.norm(p.err(q)))})
        if ambiguous(want):
            raise Discard
        text = printed(s.dump_status)
        got, scaling = parse(text)
        own = [d for d in got if d["type"] in ("regularization", "kinetic_energy_regularization")]
        check("kinematics-regularization", sorted(d["type"] for d in own) == sorted(regs), lambda: f"{own}, expected {regs}")
        # same() on the others
        keep = "\n".join(chunk for chunk in split(text) if not re.search(r"\[(kinetic_energy_)?regularization\]", chunk))
        same("kinematics", keep, want)
        if op == "solve":
            check("kinematics-scaling", (scaling is not None) == any(t.priority == "scaled" for t in alive), lambda: text)
            if scaling is not None:
                check("kinematics-scale", abs(scaling - s.scale) <= 1e-4 * abs(s.scale) + 1e-9, lambda: f"{scaling} reported, {s.scale}")
        g.cls(op)
    g.note(history=log, **sc.describe())
    g.cls(*[t.kind for t in sc.tasks])
    if big:
        g.cls("large-error")
    g.nt(big or any(x != "nothing" for x in log))


def split(text):
    """One piece per task (and one for what comes before)."""
    out = [""]
    for line in text.split("\n"):
        if re.match(r"\s*\* .*\[\w+\]\s*$", line):
            out.append("")
        out[-1] += line + "\n"
    return out


def f_dynamics(g):
    sc = dyn.gen_scene(g, n_tasks=4, n_contacts=2, limits=False, hard=0.2)
    sc.reg0 = 1e-4
    s = sc.build()
    for n, t in enumerate(sc.tasks):
        t.label = f"task{n}"
        t.configure(sc.handles[id(t)], t.label)
    alive = list(sc.tasks)
    bound = {id(k.task) for k in sc.contacts if k.kind == "task"}
    known = {id(t) for t in alive}
    q, qd, log, big = np.array(sc.q), np.array(sc.qd), [], False
    for step in range(g.integer(1, 4)):
        op = g.choice(["nothing", "move", "solve", "remove", "far", "name"])
        if op == "move":
            q, qd = rb.gen_q(g, sc.c.robot), g.gauss_vec(sc.c.nv)
            rb.set_q(sc.c.robot, q, qd)
        elif op == "solve":
            try:
                s.solve()
            except RuntimeError:
                op = "failed"
        elif op == "remove" and [t for t in alive if id(t) not in bound]:
            t = g.choice([t for t in alive if id(t) not in bound])
            alive.remove(t)
            drop(s, t, sc.handles[id(t)])
        elif op == "far":
            ts = [t for t in alive if t.kind in ("position", "com")]
            if ts:
                t = g.choice(ts)
                t.target = g.vec(3, -1, 1) * far(g)
                sc.handles[id(t)].target_world = t.target
                big = big or np.linalg.norm(t.target) > 1e6
        elif op == "name" and alive:
            t = g.choice(alive)
            t.label = g.choice(["x", "a name", "b" * g.integer(1, 200), f"other{step}"])
            t.weight = g.pos(1e-3, 1e3)
            dyn.sync(t)
            t.configure(sc.handles[id(t)], t.label)
        log.append(op)
        sc.q, sc.qd = q, qd
        if dyn.degenerate(sc):
            raise Discard
        want = []
        for t in alive:
            for p in t.parts():
                suffix = {"position": "_position", "orientation": "_orientation"}[p.kind.replace("relative_", "")] if p is not t else ""
                d = {"type": {"torque": "torques"}.get(p.kind, p.kind), "name": t.label + suffix, "priority": t.priority, "weight": p.weight}
                if not p.torque:
                    e, de = p.errors(q, qd)
                    d["error"], d["derror"] = float(np.linalg.norm(e)), float(np.linalg.norm(de))
                want.append(d)
        if ambiguous(want):
            raise Discard
        text = printed(s.dump_status)
        # the tasks of contacts made by the library are not listed here: those are its own
        same("dynamics", text, want)
        g.cls(op)
    g.note(history=log, tasks=[t.describe() for t in sc.tasks])
    g.cls(*[t.kind for t in sc.tasks])
    if big:
        g.cls("large-error")
    g.nt(big or any(x != "nothing" for x in log))


def f_problem(g):
    """The counters, and their report, follow from what the problem is made of."""
    sp = qp.gen_spec(g)
    opts = qp.gen_opts(g)
    p, v = qp.build(sp, opts)
    hard = sum(len(c.b) for c in sp.cons if c.kind == "eq" and c.prio == "hard")
    ineq = sum(len(c.b) for c in sp.cons if c.kind == "ineq")
    soft = sum(len(c.b) for c in sp.cons if c.kind == "ineq" and c.prio == "soft")
    g.note(sizes=sp.sizes, constraints=qp.describe(sp), options=str(opts))
    if not qp.solve(p):
        raise Discard
    text = printed(p.dump_status)
    got = {m[1]: int(m[2]) for m in re.finditer(r"- ([\w ]+): (-?\d+)", text)}
    check("variables", p.n_variables == sum(sp.sizes), f"{p.n_variables}")
    check("inequalities", p.n_inequalities == ineq, f"{p.n_inequalities} for {ineq} rows")
    check("slacks", p.slack_variables == soft, f"{p.slack_variables} for {soft} soft rows")
    check("determined", p.determined_variables + p.n_equalities == hard, lambda: f"{p.determined_variables} + {p.n_equalities} for {hard} rows")
    check("free", p.free_variables + p.determined_variables == p.n_variables, lambda: f"{p.free_variables} + {p.determined_variables}")
    if not p.rewrite_equalities:
        check("not-rewritten", p.determined_variables == 0)
    for k, name in (("Variables", "n_variables"), ("Inequalities", "n_inequalities"), ("Equalities", "n_equalities"), ("Slack variables", "slack_variables"), ("Determined variables", "determined_variables"), ("Free variables", "free_variables")):
        if k in got:
            check("report", got[k] == getattr(p, name), lambda: f"{k}: {got[k]} reported, {getattr(p, name)}")
        else:
            check("report-missing", k in ("Determined variables", "Free variables") and not p.rewrite_equalities, lambda: f"{k} is not in {text!r}")
    g.nt(hard > 0 or soft > 0)


FACETS = [
    Facet("kinematics", f_kinematics, 250, 3000, "something was changed before a report, or an error is large"),
    Facet("dynamics", f_dynamics, 250, 3000, "something was changed before a report, or an error is large"),
    Facet("problem", f_problem, 200, 2500, "there is a hard equality or a soft inequality"),
]
