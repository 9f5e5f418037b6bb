"""Generators and independent oracles for the humanoid walk: parameters, feet, polygons, footstep plans."""
import math
import numpy as np
import placo
from engine import Discard

LEFT, RIGHT = placo.HumanoidRobot_Side.left, placo.HumanoidRobot_Side.right


def other(side):
    return RIGHT if side == LEFT else LEFT


def flat(x, y, yaw, z=0.0):
    c, s = math.cos(yaw), math.sin(yaw)
    T = np.eye(4)
    T[:2, :2] = [[c, -s], [s, c]]
    T[:3, 3] = [x, y, z]
    return T


def yaw_of(T):
    return math.atan2(T[1, 0], T[0, 0])


def wrap(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


def parameters(g, timing=True, wide=True):
    """Walk parameters around a plausible humanoid; most are non default."""
    p = placo.HumanoidParameters()
    if timing:
        p.single_support_duration = g.pos(0.2, 2.0)
        p.single_support_timesteps = g.integer(4, 14)
        p.double_support_ratio = g.weighted([(3, 0.0), (2, 1.0), (3, g.flt(0.1, 1.5))])
        p.startend_double_support_ratio = g.weighted([(2, 1.0), (4, g.flt(0.5, 2.5))])
    if g.boolean(0.8):
        p.foot_width = g.pos(0.04, 0.15)
        p.foot_length = g.pos(0.06, 0.25)
        p.feet_spacing = p.foot_width + g.pos(0.025, 0.15)
        p.walk_max_dx_forward = g.pos(0.02, 0.3)
        p.walk_max_dx_backward = g.pos(0.01, 0.2)
        p.walk_max_dy = g.pos(0.01, 0.2)
        p.walk_max_dtheta = g.pos(0.05, 1.5 if wide else 0.8)
        p.walk_dtheta_spacing = g.weighted([(1, 0.0), (3, g.flt(0.0, 0.1))])
    return p


def rect(T, length, width, margin=0.0):
    """Corners of a foot (clockwise)."""
    pts = []
    for sx, sy in ((-1, 1), (1, 1), (1, -1), (-1, -1)):
        q = T @ np.array([sx * (length / 2 + margin), sy * (width / 2 + margin), 0, 1])
        pts.append(q[:2])
    return np.array(pts)


def separation(A, B):
    """Largest gap between two convex polygons along the normals of their edges (negative: penetration)."""
    best = -np.inf
    for P, Q in ((A, B), (B, A)):
        for i in range(len(P)):
            e = P[(i + 1) % len(P)] - P[i]
            n = np.array([e[1], -e[0]]) / np.linalg.norm(e)
            pa, qb = P @ n, Q @ n
            best = max(best, qb.min() - pa.max(), pa.min() - qb.max())
    return best


def hull_contains(points, q):
    """Signed distance of q to the border of the convex hull of the points (positive inside), from supporting lines."""
    from scipy.spatial import ConvexHull
    h = ConvexHull(points)
    return -np.max(h.equations[:, :2] @ q + h.equations[:, 2])


def clip_norm(rule, p, step):
    """Size of a step for a clipping rule: it is feasible when at most one."""
    fx = p.walk_max_dx_forward if step[0] >= 0 else p.walk_max_dx_backward
    a, b, c = abs(step[0]) / fx, abs(step[1]) / p.walk_max_dy, abs(step[2]) / p.walk_max_dtheta
    if rule == "ellipsoid":
        return math.sqrt(a * a + b * b + c * c)
    if rule == "box":
        return a + b + c
    return math.hypot(a, b) + c


def clip(rule, p, step):
    n = clip_norm(rule, p, step)
    return step if n <= 1 else step / n


def opposite(p, side, T, step=(0.0, 0.0, 0.0)):
    """Frame of the other foot when placed at the neutral spacing, moved by a step."""
    s = -1 if side == LEFT else 1
    return T @ flat(step[0], s * p.feet_spacing + step[1], step[2])


def clipped_step(p, side, step, rule, margin=1e-2):
    """The step the planner should do next to a support on `side`: spread when turning, clipped, then shrunk by tenths
    until the foot does not step on the support. Returns None when a shrinking decision is a matter of rounding."""
    s = -1 if side == LEFT else 1
    st = np.array([step[0], step[1] + s * p.walk_dtheta_spacing * abs(step[2]), step[2]])
    st = clip(rule, p, st)
    A = rect(np.eye(4), p.foot_length, p.foot_width, margin)
    k = 0
    while k < 32:
        B = rect(opposite(p, side, np.eye(4), st), p.foot_length, p.foot_width, margin)
        gap = separation(A, B)
        if abs(gap) < 1e-9:
            return None, k
        if gap > 0:
            break
        st = st * 0.9
        k += 1
    return st, k


# ---- walk pattern generator
_ROBOT = None
G = 9.80665
SIGMABAN = "/repo/python/tests/sigmaban/robot.urdf"


def humanoid():
    """A HumanoidRobot (the generator only keeps a reference to it), loaded once per process."""
    global _ROBOT
    if _ROBOT is None:
        _ROBOT = placo.HumanoidRobot(SIGMABAN, placo.Flags.ignore_collisions)
    return _ROBOT


def walk_parameters(g):
    p = parameters(g, timing=True, wide=False)
    if p.startend_double_support_timesteps() < 1:
        p.startend_double_support_ratio = 1.0
    p.walk_com_height = g.pos(0.15, 1.0)
    p.zmp_margin = g.weighted([(4, g.flt(0, 0.6)), (2, g.flt(0.6, 0.97))]) * min(p.foot_width, p.foot_length) / 2
    p.walk_foot_height = g.pos(0.01, 0.2)
    p.walk_foot_rise_ratio = g.weighted([(1, 0.0), (3, g.flt(0.05, 0.8))])
    p.walk_trunk_pitch = g.weighted([(1, 0.0), (2, g.flt(-0.5, 0.5))])
    if g.boolean():
        k = g.choice([0.3, 0.3, 1.2])
        p.foot_zmp_target_x = g.flt(-k, k) * p.foot_length / 2
        p.foot_zmp_target_y = g.flt(-k, k) * p.foot_width / 2
    if g.boolean(0.3):
        p.zmp_reference_weight = g.pos(1e-2, 10.0)
    return p


def default_duration(p, s):
    if s.is_both():
        n = p.startend_double_support_timesteps() if s.start or s.end else p.double_support_timesteps()
        return n * p.single_support_duration / p.single_support_timesteps
    return p.single_support_duration


def default_timesteps(p, s):
    if s.is_both():
        return p.startend_double_support_timesteps() if s.start or s.end else p.double_support_timesteps()
    return p.single_support_timesteps


class Phase:
    """What the plan of one support should be."""

    def __init__(self, p, s, t):
        self.feet = {f.side: np.array(f.frame) for f in s.footsteps}
        self.both, self.start, self.end = len(self.feet) == 2, s.start, s.end
        self.elapsed, self.ratio = s.elapsed_ratio, s.time_ratio
        self.default = default_duration(p, s)
        self.duration = (1 - s.elapsed_ratio) * self.default * s.time_ratio
        self.n = max(1, int((1 - s.elapsed_ratio) * default_timesteps(p, s)))
        self.dt = self.duration / self.n
        self.t0, self.t1 = t, t + self.duration
        Ts = list(self.feet.values())
        self.corners = np.vstack([rect(T, p.foot_length, p.foot_width) for T in Ts])
        if self.both:
            a, b = yaw_of(Ts[0]), yaw_of(Ts[1])
            self.frame = flat(*((Ts[0] + Ts[1]) / 2)[:2, 3], a + wrap(b - a) / 2)
            self.target = self.frame[:2, 3]
        else:
            self.frame = Ts[0]
            s_ = 1 if LEFT in self.feet else -1
            self.target = (Ts[0] @ np.array([p.foot_zmp_target_x, s_ * p.foot_zmp_target_y, 0, 1]))[:2]

    def move(self, T):
        """Planar transform of the world."""
        self.feet = {k: T @ v for k, v in self.feet.items()}
        self.frame = T @ self.frame
        R = T[:2, :2]
        self.corners = self.corners @ R.T + T[:2, 3]
        self.target = R @ self.target + T[:2, 3]

    def halfplanes(self):
        """Unit inward normals and offsets: inside when n.q >= o."""
        from scipy.spatial import ConvexHull
        h = ConvexHull(self.corners)
        return -h.equations[:, :2], h.equations[:, 2]


class Lip:
    """The planning problem of a walk, written from its definition: jerks per axis, ZMP in the polygons."""

    def __init__(self, p, phases, init):
        self.p, self.phases = p, phases
        n = sum(f.n for f in phases)
        self.n = n
        om2 = G / p.walk_com_height
        P = np.zeros((n + 1, n))
        V = np.zeros((n + 1, n))
        A = np.zeros((n + 1, n))
        c = np.zeros((n + 1, 3, 2))  # free response
        c[0] = init
        k = 0
        self.where = []
        for i, f in enumerate(phases):
            h = f.dt
            for _ in range(f.n):
                P[k + 1] = P[k] + h * V[k] + h * h / 2 * A[k]
                V[k + 1] = V[k] + h * A[k]
                A[k + 1] = A[k]
                P[k + 1, k] += h**3 / 6
                V[k + 1, k] += h * h / 2
                A[k + 1, k] += h
                c[k + 1, 0] = c[k, 0] + h * c[k, 1] + h * h / 2 * c[k, 2]
                c[k + 1, 1] = c[k, 1] + h * c[k, 2]
                c[k + 1, 2] = c[k, 2]
                k += 1
                self.where.append(i)
        self.P, self.V, self.A, self.c = P, V, A, c
        self.Z = P - A / om2
        self.cz = c[:, 0] - c[:, 2] / om2

    def slack(self):
        """Largest extra distance (m) between the ZMP and its constraints that some plan achieves (negative: impossible)."""
        from scipy.optimize import linprog
        n = self.n
        rows, rhs = [], []
        for k in range(n):
            N, o = self.phases[self.where[k]].halfplanes()
            for nn, oo in zip(N, o):
                # nn . zmp - s >= oo + margin
                rows.append(np.concatenate([-nn[0] * self.Z[k + 1], -nn[1] * self.Z[k + 1], [1.0]]))
                rhs.append(nn @ self.cz[k + 1] - oo - self.p.zmp_margin)
        E, e = [], []
        if self.phases[-1].end:
            tgt = self.phases[-1].frame[:2, 3]
            for M, ci, want in ((self.P, 0, tgt), (self.V, 1, np.zeros(2)), (self.A, 2, np.zeros(2))):
                for ax in (0, 1):
                    r = np.zeros(2 * n + 1)
                    r[ax * n:(ax + 1) * n] = M[n]
                    E.append(r)
                    e.append(want[ax] - self.c[n, ci, ax])
        cost = np.zeros(2 * n + 1)
        cost[-1] = -1
        res = linprog(cost, A_ub=np.array(rows), b_ub=np.array(rhs), A_eq=np.array(E) if E else None, b_eq=np.array(e) if E else None,
                      bounds=[(None, None)] * (2 * n) + [(-10, 10)], method="highs")
        if res.status != 0:
            return None
        return float(res.x[-1])


def phases_of(p, supports, t):
    out = []
    for s in supports:
        f = Phase(p, s, t)
        out.append(f)
        t = f.t1
    return out


def steps_plan(g, p, nmax=8):
    """Footsteps from a planner, starting from feet around the neutral stance."""
    from props.p43 import start_feet
    L, R = start_feet(g, p, 0.3)
    L[2, 3] = R[2, 3] = 0.0
    side = g.choice([LEFT, RIGHT])
    if g.boolean(0.75):
        pl = placo.FootstepsPlannerRepetitive(p)
        st = g.vec(3, -1, 1) * np.array([p.walk_max_dx_forward, p.walk_max_dy, p.walk_max_dtheta]) * g.choice([0.5, 1.0])
        pl.configure(*map(float, st), g.integer(1, nmax))
    else:
        pl = placo.FootstepsPlannerNaive(p)
        d = 3 * p.walk_max_dx_forward
        GL = L @ flat(d * g.flt(-1, 1), d * g.flt(-0.5, 0.5), 2 * p.walk_max_dtheta * g.flt(-1, 1))
        pl.configure(GL, opposite(p, LEFT, GL))
    fs = pl.plan(side, L, R)
    return pl, fs


def hermite(p0, p1, t):
    t0, x0, d0 = p0
    t1, x1, d1 = p1
    h = t1 - t0
    s = (t - t0) / h
    return (2 * s**3 - 3 * s**2 + 1) * x0 + (s**3 - 2 * s**2 + s) * h * d0 + (-2 * s**3 + 3 * s**2) * x1 + (s**3 - s**2) * h * d1
