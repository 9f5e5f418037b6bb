"""P32: contact wrenches are physically admissible."""
import numpy as np
import placo
import dyn
import kin
import qp
import robots as rb
from engine import Facet, Violation, Discard, close, check, raises

RULE = "A case is a robot in a generated state, with tasks and contacts; the wrenches after the solve are compared to what the contacts can transmit. Non-trivial when a contact pushes, or a friction or pressure bound is reached, or a disabled contact is compared."


def admissible(k, h, g, scale):
    """Friction, unilaterality and centre of pressure, read on the wrench itself."""
    w = np.array(h.wrench).reshape(-1)
    tol = 2e-5 * scale
    if k.kind in ("unilateral-point", "unilateral-line"):
        f = k.R.T @ w[:3]
    elif k.kind == "planar":
        f = w[:3]
    elif k.kind == "fixed":
        if abs(w[2]) > 1e-2:  # the moment of the wrench vanishes at the zmp, apart from the vertical one
            z = np.array(h.zmp()).reshape(-1)
            close("fixed-zmp-moment", (w[3:] - np.cross(z, w[:3]))[:2], np.zeros(2), atol=1e-8 * scale)
            close("fixed-zmp-plane", z[2], 0.0, atol=0)
        return
    else:
        return
    check(f"{k.kind}-pulls", f[2] >= -tol, lambda: f"normal force {f[2]}")
    for a in (0, 1):
        check(f"{k.kind}-friction", abs(f[a]) <= k.mu * f[2] + tol, lambda: f"force {f} with mu {k.mu}")
        if f[2] > 1e-3 and abs(f[a]) >= k.mu * f[2] * (1 - 1e-3):
            g.cls("at friction bound")
    g.nt(f[2] > 1e-2)
    if k.kind == "planar":
        check("planar-pressure", abs(w[4]) <= k.length / 2 * f[2] + tol and abs(w[3]) <= k.width / 2 * f[2] + tol, lambda: f"moments {w[3:5]}, normal force {f[2]}, area {k.length} x {k.width}")
        if f[2] > 1e-2:
            z = np.array(h.zmp()).reshape(-1)
            close("planar-zmp", z, [-w[4] / f[2], w[3] / f[2], 0.0], atol=1e-9, rtol=1e-9)
            # the moment of the wrench vanishes there, apart from the vertical one
            m = w[3:] - np.cross(z, f)
            close("planar-zmp-moment", m[:2], np.zeros(2), atol=1e-8 * scale)
            check("zmp-outside", abs(z[0]) <= k.length / 2 + tol / f[2] and abs(z[1]) <= k.width / 2 + tol / f[2], lambda: f"zmp {z}, area {k.length} x {k.width}")
            if abs(z[0]) > 0.499 * k.length or abs(z[1]) > 0.499 * k.width:
                g.cls("at pressure bound")
    if k.kind == "unilateral-line":
        check("line-pressure", abs(w[3]) <= k.length / 2 * f[2] + tol, lambda: f"moment {w[3]}, normal force {f[2]}, length {k.length}")
        if f[2] > 1e-2:
            z = np.array(h.zmp()).reshape(-1)
            close("line-zmp", z, [-w[3] / f[2], 0, 0], atol=1e-9, rtol=1e-9)
            if abs(z[0]) > 0.499 * k.length:
                g.cls("at pressure bound")


UNI = ["unilateral-point", "planar", "unilateral-line", "unilateral-point", "planar", "wrench", "point", "fixed"]


def f_admissible(g):
    sc, sp, reg0, s, res, x = dyn.solved(g, contacts=UNI, n_contacts=4, n_tasks=2, hard=0.2)
    if not sc.live():
        raise Discard
    for k in sc.live():
        h = sc.handles[id(k)]
        w = np.array(h.wrench).reshape(-1)
        admissible(k, h, g, 1 + np.abs(w).max())
        if k.kind == "wrench":
            close("wrench-exact", w, k.w, atol=1e-5 * (1 + np.abs(k.w).max()))
        g.cls(k.kind)


def f_stress(g):
    """Contacts asked for more than they can: large tangential, moment and pulling demands on a robot whose base is driven."""
    sc = dyn.DScene()
    r, spec, kind = rb.pick(g, w_random=8, min_joints=2, max_joints=6)
    c = sc.c = dyn.DCtx(r)
    sc.q = rb.gen_q(g, r, shrink=0.05)
    sc.qd = g.gauss_vec(c.nv) * g.choice([0.0, 0.3])
    rb.set_q(r, sc.q, sc.qd)
    sc.mask_base = g.boolean(0.3)
    sc.torque_cost = g.pos(1e-4, 1e-2)
    sc.reg0 = g.choice([None, 1e-5])
    for _ in range(g.integer(1, 2)):
        k, t = dyn.gen_contact(g, sc, ["unilateral-point", "planar", "unilateral-line"])
        k.active = True
        t.priority = "soft"
        dyn.sync(t)
        sc.tasks.append(t)
        sc.contacts.append(k)
    t = dyn.gen_task(g, c, sc.q, sc.qd, ["com", "position", "orientation", "joints"])
    t.priority = "soft"
    for p in t.parts():
        p.ddtarget = g.gauss_vec(len(p.ddtarget)) * g.choice([5.0, 30.0])
        if p.kind == "joints":
            t.full = True
    sc.tasks.append(t)
    sp, reg0 = dyn.domain(sc)
    g.note(**sc.describe())
    s = sc.build()
    smooth = g.boolean(0.1)
    if smooth:  # no friction at all: such contacts only push
        for k in sc.live():
            k.mu = 0.0
            sc.handles[id(k)].mu = 0.0
    res = s.solve()
    if smooth:  # opposite inequalities: the QP library does not always manage
        g.cls("no friction" if res.success else "no friction, not solved")
        if not res.success:
            raise Discard
    check("refused", res.success)
    x = sc.x(res)
    for k in sc.live():
        admissible(k, sc.handles[id(k)], g, 1 + np.abs(x).max())
        g.cls(k.kind)
    if smooth:
        return
    qp.check_feasible(sp, x, tol=2e-5)
    r = qp.kkt_residual(sp, x, reg0, act_tol=2e-5)
    check("not-optimal", r <= 5e-5, lambda: f"relative residual {r:.3g}: the contact refuses what it can transmit, or weights something else")


def f_inactive(g):
    """Inactive and removed contacts have no effect; a reactivated one is back."""
    sc = dyn.gen_scene(g, n_contacts=3, n_tasks=2, hard=0.2)
    extra = []
    for _ in range(g.integer(1, 2)):
        k, t = dyn.gen_contact(g, sc)
        k.active = True
        if t is not None:
            t.priority = "soft"
            dyn.sync(t)
            sc.tasks.append(t)
        extra.append(k)
    sp, reg0 = dyn.domain(sc)
    g.note(**sc.describe())
    s = sc.build()
    ref = s.solve()
    check("refused", ref.success)
    want = sc.x(ref)
    sc2 = sc
    hs = []
    for k in extra:
        h = k.add(s, sc.handles)
        k.set(h)
        hs.append(h)
    how = g.choice(["inactive", "removed", "removed-after-solve"])
    g.cls(how)
    check("count", s.count_contacts() == len(sc.contacts) + len(extra))
    if how == "removed-after-solve":
        # solving with the additional contacts requires a feasible problem
        sc.contacts += extra
        for k, h in zip(extra, hs):
            sc.handles[id(k)] = h
        dyn.domain(sc)
        res = s.solve()
        check("refused", res.success)
        check("no-wrench", all(np.array(h.wrench).size > 0 for h in hs))
        sc.contacts = sc.contacts[:-len(extra)]
    for h in hs:
        if how == "inactive":
            h.active = False
        else:
            s.remove_contact(h)
    res = s.solve()
    check("refused", res.success)
    got = sc.x(res)
    close("removed-contact-acts", got, want, atol=1e-6 * (1 + np.abs(want).max()))
    close("removed-contact-tau", res.tau, ref.tau, atol=1e-5 * (1 + np.abs(np.array(ref.tau)).max()))
    if how == "inactive":
        # and back
        sc.contacts += extra
        for k, h in zip(extra, hs):
            h.active = True
            sc.handles[id(k)] = h
        try:
            sp, reg0 = dyn.domain(sc)
        except Discard:
            sp = None
        if sp is not None:
            res = s.solve()
            check("refused", res.success)
            x = sc.x(res)
            qp.check_feasible(sp, x, tol=2e-5)
            r = qp.kkt_residual(sp, x, reg0, act_tol=2e-5)
            check("reactivated", r <= 5e-5, lambda: f"relative residual {r:.3g}")
    g.nt()


def f_weights(g):
    """Weights penalise exactly their components: with everything else free, the optimum matches the reference cost."""
    sc = dyn.gen_scene(g, n_contacts=0, n_tasks=1, limits=False, hard=0.0)
    k, t = dyn.gen_contact(g, sc)
    k.active = True
    which = g.choice(["forces", "tangentials", "moments", "all"])
    k.weight_forces = g.pos(1e-3, 10) if which in ("forces", "all") else 0.0
    k.weight_tangentials = g.pos(1e-3, 10) if which in ("tangentials", "all") else 0.0
    k.weight_moments = g.pos(1e-3, 10) if which in ("moments", "all") else 0.0
    if t is not None:
        t.priority = "soft"
        dyn.sync(t)
        sc.tasks.append(t)
    sc.contacts = [k]
    sp, reg0 = dyn.domain(sc)
    g.note(**sc.describe())
    s = sc.build()
    res = s.solve()
    check("refused", res.success)
    x = sc.x(res)
    qp.check_feasible(sp, x, tol=2e-5)
    r = qp.kkt_residual(sp, x, reg0, act_tol=2e-5)
    check("weights", r <= 5e-5, lambda: f"relative residual {r:.3g}: {k.kind}, {which}")
    g.cls(f"{k.kind} {which}")
    g.nt(np.abs(x[sc.c.nv:]).max() > 1e-3)


def f_refuse(g):
    """Contacts that cannot be expressed are refused."""
    sc = dyn.gen_scene(g, n_contacts=0, n_tasks=1, limits=False, hard=0.0)
    c, q = sc.c, sc.q
    s = sc.build()
    f = g.choice(c.frames)
    case = g.choice(["planar-area", "line-length", "point-mask", "line-mask", "wrench-reference", "wrench-frame"])
    g.cls(case)
    if case == "planar-area":
        k = s.add_planar_contact(s.add_frame_task(f, c.T(q, f)))
        l, w = g.choice([(0.0, 0.0), (0.1, 0.0), (0.0, 0.1)])
        k.length, k.width = l, w
        raises(case, lambda: s.solve())
        k.length, k.width = 0.1, 0.2
        s.problem  # still alive
        k.active = False
        check("not-recovered", s.solve().success)
    elif case == "line-length":
        t = s.add_frame_task(f, c.T(q, f))
        t.orientation().mask.set_axises("yz", "local")
        s.add_unilateral_line_contact(t)
        raises(case, lambda: s.solve())
    elif case == "point-mask":
        t = s.add_position_task(f, c.T(q, f)[:3, 3])
        t.mask.set_axises(g.choice(["x", "xy", "yz", "xz"]), "task")
        (s.add_point_contact if g.boolean() else s.add_unilateral_point_contact)(t)
        raises(case, lambda: s.solve())
        t.mask.set_axises("xyz", "task")
        check("not-recovered", s.solve().success)
    elif case == "line-mask":
        t = s.add_frame_task(f, c.T(q, f))
        if g.boolean():
            t.orientation().mask.set_axises(g.choice(["x", "z"]), "local")
        k = s.add_line_contact(t)
        k.length = 0.1
        raises(case, lambda: s.solve())
        t.orientation().mask.set_axises("yz", "local")
        check("not-recovered", s.solve().success)
    elif case == "wrench-reference":
        raises(case, lambda: s.add_external_wrench_contact(f, g.choice(["World", "body", ""])))
        check("count", s.count_contacts() == 0)
    else:
        raises(case, lambda: s.add_external_wrench_contact("no such frame", "world"))
        check("count", s.count_contacts() == 0)
    g.nt()


FACETS = [
    Facet("admissible", f_admissible, 1800, 30000, "a unilateral contact pushes"),
    Facet("stress", f_stress, 1500, 25000, "a unilateral contact pushes"),
    Facet("inactive", f_inactive, 900, 12000, "always"),
    Facet("weights", f_weights, 1000, 15000, "the contact transmits force"),
    Facet("refuse", f_refuse, 200, 2000, "always"),
]
