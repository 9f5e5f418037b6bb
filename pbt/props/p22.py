"""P22: a kinematics step is the optimal compromise of soft tasks and regularization."""
import numpy as np
import placo
import kin
import qp
import robots as rb
from engine import Facet, Violation, Discard, close, check, raises

RULE = "A case is a robot in a generated state with soft tasks and regularizations, possibly hard rows, masks, limits and constraints; the returned displacement must satisfy the optimality conditions of the cost assembled in numpy from forward kinematics. Non-trivial when at least two soft terms are present and the optimal cost is above 1e-8."


def solve(sc, s):
    return kin.solve(s)


def prepare(g, **kw):
    sc = kin.gen_scene(g, **kw)
    if kin.degenerate(sc, sc.q):
        raise Discard
    sp = sc.spec(sc.q)
    defi, cond = kin.eq_conditioning(sp)
    if defi or cond < 1e-3:
        raise Discard
    if kin.witness(sp) is None:
        raise Discard
    reg0 = 1e-8 if sc.reg0 is None else sc.reg0
    if kin.solver_tolerance(sp, reg0) > 1e-6:
        raise Discard
    g.note(**sc.describe())
    return sc, sp, reg0


def kkt(sc, sp, s, reg0, tag="not-optimal"):
    dq = solve(sc, s)
    x = np.concatenate([dq, [s.scale]]) if sc.scaled() else dq
    qp.check_feasible(sp, x)
    r = qp.kkt_residual(sp, x, reg0, act_tol=1e-5)
    check(tag, r <= 2e-5, lambda: f"relative residual {r:.3g} dq={dq} cost {qp.objective(sp, x, reg0)}")
    return x


def f_kkt(g):
    sc, sp, reg0 = prepare(g)
    s = sc.build()
    x = kkt(sc, sp, s, reg0)
    soft = [k for k in sp.cons if k.prio == "soft"]
    g.nt(len(soft) > 1 and qp.objective(sp, x, reg0) > 1e-8)
    for k in sp.cons:
        g.cls(f"{k.prio}-{k.form}")
    if g.boolean(0.5):
        reweight(g, sc, s)
        sp = sc.spec(sc.q)
        if kin.solver_tolerance(sp, reg0) > 1e-6:
            return
        g.cls("reweighted")
        kkt(sc, sp, s, reg0, "not-optimal-after-reweighting")


def reweight(g, sc, s):
    """The weights of the live solver's items are changed through their handles."""
    for t in sc.tasks:
        if g.boolean(0.5):
            t.weight = g.pos(0.05, 20)
            if hasattr(t, "weight2"):
                t.weight2 = g.pos(0.05, 20)
            t.configure(sc.handles[id(t)], "again")
    for n, x in enumerate(sc.reg):
        h = sc.handles[id(x)]
        if x[0] == "energy":
            x = ("energy", g.pos(1e-6, 1e-1))
            h.configure("energy", "soft", x[1])
        else:
            x = kin.reweight(g, sc.c, h, x)
        sc.reg[n] = x
        sc.handles[id(x)] = h


def f_weights(g):
    """Scaling every cost together changes nothing; raising one weight cannot increase that task's residual."""
    sc, sp, reg0 = prepare(g, prios=("soft", "hard"), n_tasks=4)
    reg0 = 1e-5
    sc.reg0 = reg0
    sc.reg = [("regularization", g.pos(1e-3, 1e-1), {})] if g.boolean(0.5) else []
    sp = sc.spec(sc.q)
    x0 = solve(sc, sc.build())
    soft = [t for t in sc.tasks if t.priority == "soft"]
    if not soft:
        raise Discard
    k = g.choice([0.5, 2.0, 7.0])
    saved = [(t, t.weight, getattr(t, "weight2", None)) for t in soft]
    for t in soft:
        t.weight *= k
        if hasattr(t, "weight2"):
            t.weight2 *= k
    sc.reg0 = reg0 * k
    reg = list(sc.reg)
    sc.reg = [("regularization", r[1] * k, {j: w * k for j, w in r[2].items()}) for r in sc.reg]
    x1 = solve(sc, sc.build())
    close("common-scale", x1, x0, atol=1e-4, rtol=1e-4)
    for t, w, w2 in saved:
        t.weight = w
        if w2 is not None:
            t.weight2 = w2
    sc.reg, sc.reg0 = reg, reg0
    t = g.choice(soft)

    rel = [(np.atleast_2d(p.jac(sc.q)), np.atleast_1d(p.err(sc.q)), w) for p, w in zip(t.parts(), [t.weight, getattr(t, "weight2", 1.0)])]

    def residual(x):
        return float(sum(w / t0 * np.sum((A @ x - b) ** 2) for A, b, w in rel))
    t0 = t.weight
    r0 = residual(x0)
    f = g.choice([3.0, 100.0])
    t.weight *= f
    if hasattr(t, "weight2"):
        t.weight2 *= f
    x2 = solve(sc, sc.build())
    r1 = residual(x2)
    check("weight-monotone", r1 <= r0 + 1e-6 * (1 + r0), f"{t.describe()}: residual {r0} became {r1}")
    g.nt(len(soft) > 1 and r0 > 1e-6)
    g.cls("decreased" if r1 < r0 - 1e-7 else "same")


def f_unconstrained(g):
    """Without any hard row the optimum is the closed form weighted least squares solution."""
    sc = kin.gen_scene(g, prios=("soft",), masks=False)
    sc.lim = sc.vel = False
    sc.reg0 = g.choice([1e-6, 1e-4, 1e-2])
    if kin.degenerate(sc, sc.q):
        raise Discard
    sp = sc.spec(sc.q)
    P = sc.reg0 * np.eye(sp.n)
    v = np.zeros(sp.n)
    for k in sp.cons:
        P = P + k.w * k.A.T @ k.A
        v = v + k.w * k.A.T @ k.b
    g.note(**sc.describe(), regularization=sc.reg0)
    x = solve(sc, sc.build())
    want = np.linalg.solve(P, -v)
    close("least-squares", P @ x, -v, atol=1e-6 * (1 + np.abs(P).max() * 1e-2), rtol=1e-6)
    if np.linalg.cond(P) < 1e8:
        close("least-squares", x, want, atol=1e-6, rtol=1e-5)
    g.nt(np.abs(x).max() > 1e-4)


FACETS = [
    Facet("kkt", f_kkt, 1500, 30000, "two soft terms and a cost above 1e-8"),
    Facet("weights", f_weights, 500, 10000, "at least two soft tasks, residual above 1e-6"),
    Facet("unconstrained", f_unconstrained, 500, 10000, "displacement above 1e-4"),
]
