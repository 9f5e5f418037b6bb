"""P06: re-using a problem gives the same result as building it afresh (model-based histories)."""
import numpy as np
import placo
from engine import Facet, Violation, Discard, close, check, raises
import qp

RULE = "A case is a history of operations on one Problem; at each solve it is compared with a fresh Problem holding the live content. Non-trivial when the history has two solves or more with a change in between."


def expression(A, b):
    e = placo.Expression()
    e.A = np.asfortranarray(A)
    e.b = np.asarray(b, float)
    return e


class Hist:
    def __init__(self, g):
        self.g = g
        self.p = placo.Problem()
        self.p.regularization = 1e-3
        self.reg = 1e-3
        self.sizes, self.vs = [], []
        self.cons, self.handles = [], []
        self.opts = {"sparsity": self.p.use_sparsity, "rewrite": self.p.rewrite_equalities}
        self.vals = []  # last successful values per variable (None before)
        self.xf = np.random.Generator(np.random.PCG64(5)).standard_normal(64)
        self.log = []
        self.bad = 0
        self.solves = 0
        self.its = []

    @property
    def n(self):
        return sum(self.sizes)

    def has_eq(self):
        return any(c.kind == "eq" and c.prio == "hard" for c in self.cons)

    def dependent(self):
        rows = [np.pad(c.A, ((0, 0), (0, 64 - c.A.shape[1]))) for c in self.cons if c.kind == "eq" and c.prio == "hard"]
        if not rows:
            return False
        E = np.vstack(rows)
        s = np.linalg.svd(E, compute_uv=False)
        return E.shape[0] > self.n or s[-1] < 0.02 * max(1.0, s[0])

    def add_variable(self):
        if self.n > 10:
            return
        k = self.g.integer(1, 3)
        self.vs.append(self.p.add_variable(k))
        self.sizes.append(k)
        self.vals.append(None)
        self.log.append(f"var{k}")

    def add_constraint(self):
        if not self.n or len(self.cons) > 9:
            return
        g = self.g
        sp = qp.Spec()
        sp.sizes = list(self.sizes)
        c = qp.gen_con(g, sp, self.xf[:self.n], 2, kinds=("eq", "ineq"))
        self.push(c)

    def push(self, c):
        # truncated columns on purpose: expressions built before later variables exist
        e = expression(c.A, np.zeros(len(c.b)))
        h = self.p.add_constraint((e == -c.b) if c.kind == "eq" else (e >= -c.b))
        h.configure(c.prio, c.w)
        self.cons.append(c)
        self.handles.append(h)
        self.log.append(f"{c.prio}-{c.kind}")

    def configure(self):
        if not self.cons:
            return
        i = self.g.integer(0, len(self.cons) - 1)
        c = self.cons[i]
        if c.form == "bad":
            return
        w = self.g.pos(0.1, 10)
        # a soft constraint is not made hard unless xf meets it
        r = c.A @ self.xf[:c.A.shape[1]] + c.b
        canhard = np.all(r >= 0.01) if c.kind == "ineq" else np.all(np.abs(r) < 1e-9)
        prio = self.g.choice(["soft", "hard"]) if canhard else "soft"
        c.prio, c.w = prio, w
        self.handles[i].configure(prio, w)
        self.log.append(f"configure-{prio}")

    def edit(self):
        """Rewrites the expression of a constraint already in the problem."""
        if not self.cons:
            return
        g = self.g
        i = g.integer(0, len(self.cons) - 1)
        c = self.cons[i]
        if c.form == "bad" or c.prio != "soft":
            return
        if g.boolean():
            c.b = c.b + g.gauss_vec(len(c.b))
            self.handles[i].expression.b = c.b
        else:
            k = g.choice([0.5, -1.0, 2.0])
            c.A, c.b = c.A * k, c.b * k
            self.handles[i].expression.A = np.asfortranarray(c.A)
            self.handles[i].expression.b = c.b
        self.log.append("edit")

    def contradict(self):
        if not self.n or self.bad:
            return
        A = self.g.gauss_mat(1, self.n)
        if np.linalg.norm(A) < 0.2:
            return
        self.opts["rewrite"] = self.p.rewrite_equalities = True
        v = float(A[0] @ self.xf[:self.n])
        for s, o in ((1, -v - 1.0), (-1, v - 1.0)):
            self.push(qp.Con("ineq", s * A, np.array([o]), "hard", 1.0, "bad"))
        self.bad = 1
        self.log.append("contradiction")

    def soften(self):
        for c, h in zip(self.cons, self.handles):
            if c.form == "bad":
                c.prio = "soft"
                h.configure("soft", 1.0)
        self.bad = 0
        self.log.append("soften")

    def kept(self):
        got = (self.p.use_sparsity, self.p.rewrite_equalities, self.p.regularization)
        want = (self.opts["sparsity"], self.opts["rewrite"], self.reg)
        check("options-kept", got == want, lambda: f"clearing changed the options: {got} instead of {want}")

    def clear_constraints(self):
        self.p.clear_constraints()
        self.kept()
        self.cons, self.handles, self.bad = [], [], 0
        self.log.append("clear_constraints")

    def clear_variables(self):
        self.p.clear_variables()
        self.kept()
        self.vs, self.sizes, self.vals, self.its = [], [], [], []
        self.log.append("clear_variables")

    def options(self):
        if self.g.boolean(0.3):
            self.reg = self.p.regularization = self.g.choice([1e-3, 1e-2, 1e-4])
        self.opts["sparsity"] = self.p.use_sparsity = self.g.boolean()
        if not (self.bad and self.has_eq()):
            self.opts["rewrite"] = self.p.rewrite_equalities = self.g.boolean() or self.bad
        self.log.append(f"options{self.opts}")

    def integrator(self):
        if len(self.vs) < 2:
            return
        j = self.g.integer(1, len(self.vs) - 1)
        order = self.g.integer(1, 2)
        e = self.vs[0].expr(0, 1)
        X0 = e if order == 1 else e / placo.Expression.from_double(0.5)
        it = placo.Integrator(self.vs[j], X0, order, 0.1)
        self.its.append((it, j, order))
        self.log.append("integrator")

    def solve(self):
        if not self.n:
            return
        self.solves += 1
        if not self.opts["rewrite"] and self.dependent():
            # the QP library does not support dependent equalities: only elimination detects (and refuses) them
            self.opts["rewrite"] = self.p.rewrite_equalities = True
        ok = qp.solve(self.p)
        # fresh twin
        q = placo.Problem()
        q.regularization = self.reg
        q.use_sparsity, q.rewrite_equalities = self.opts["sparsity"], self.opts["rewrite"]
        us = [q.add_variable(k) for k in self.sizes]
        hs = []
        for c in self.cons:
            e = expression(c.A, np.zeros(len(c.b)))
            h = q.add_constraint((e == -c.b) if c.kind == "eq" else (e >= -c.b))
            h.configure(c.prio, c.w)
            hs.append(h)
        ok2 = qp.solve(q)
        self.log.append("solve" if ok else "failed-solve")
        check("outcome-differs", ok == ok2, lambda: f"re-used problem {'solved' if ok else 'raised'}, fresh problem {'solved' if ok2 else 'raised'} after {self.log}")
        if ok:
            close("x-differs", self.p.x, q.x, atol=1e-7, rtol=1e-7, msg=f"after {self.log}")
            for k, (v, u) in enumerate(zip(self.vs, us)):
                val = np.atleast_1d(u.value).reshape(-1)
                close("values-differ", np.atleast_1d(v.value).reshape(-1), val, atol=1e-7, rtol=1e-7, msg=f"after {self.log}")
                self.vals[k] = val.copy()
            for a, b in zip(self.handles, hs):
                check("activity-differs", a.is_active == b.is_active, lambda: f"after {self.log}")
            close("slacks-differ", np.atleast_1d(self.p.slacks).reshape(-1), np.atleast_1d(q.slacks).reshape(-1), atol=1e-6, msg=f"after {self.log}")
            for nme in ("n_variables", "n_inequalities", "n_equalities", "free_variables", "determined_variables", "slack_variables"):
                check("counter-differs", getattr(self.p, nme) == getattr(q, nme), lambda: f"{nme} after {self.log}")
            if not any(c.A.shape[1] > self.n for c in self.cons):
                sp = qp.Spec()
                sp.sizes = self.sizes
                for c in self.cons:
                    A = np.zeros((c.A.shape[0], self.n))
                    A[:, :c.A.shape[1]] = c.A
                    sp.cons.append(qp.Con(c.kind, A, c.b, c.prio, c.w))
                x = qp.values(self.vs)
                qp.check_feasible(sp, x, "history-feasible")
                r = qp.kkt_residual(sp, x, self.reg)
                check("history-optimal", r < 1e-5, lambda: f"residual {r} after {self.log}")
        self.observe()

    def observe(self):
        """Variables, and integrators built on them, report the last successful solve."""
        for k, v in enumerate(self.vs):
            got = np.atleast_1d(np.asarray(v.value, float)).reshape(-1)
            if self.vals[k] is None:
                check("value-before-solve", got.size == 0, f"{got} after {self.log}")
            else:
                close("stale-value", got, self.vals[k], atol=1e-7, rtol=1e-7, msg=f"after {self.log}")
        for it, j, order in self.its:
            if self.vals[j] is None:
                raises("integrator-before-solve", lambda: it.value(0.0, 0))
            elif self.vals[0] is not None:
                close("integrator-initial", it.value(0.0, 0), self.vals[0][0], atol=1e-7, msg=f"after {self.log}")
                u = self.vals[j]
                x1 = self.vals[0][0]
                d = 0.5
                for k in range(len(u)):
                    if order == 1:
                        x1 += 0.1 * u[k]
                    else:
                        x1 += 0.1 * d + 0.005 * u[k]
                        d += 0.1 * u[k]
                close("integrator-final", it.value(0.1 * len(u), 0), x1, atol=1e-7, msg=f"after {self.log}")


def f_history(g):
    h = Hist(g)
    h.add_variable()
    for _ in range(g.integer(4, 24)):
        op = g.weighted([(6, h.solve), (6, h.add_constraint), (3, h.add_variable), (3, h.configure), (2, h.edit), (2, h.options),
                         (1, h.contradict), (1, h.soften), (1, h.clear_constraints), (0.6, h.clear_variables), (1.5, h.integrator), (1, h.observe)])
        op()
    h.solve()
    g.note(log=h.log)
    g.nt(h.solves >= 2)
    g.cls(*[x.split("{")[0] for x in h.log])


FACETS = [Facet("history", f_history, 5000, 80000, "two solves or more")]
