"""P08: frame, angle and axis helpers satisfy their geometric definitions."""
import math
import numpy as np
import placo
from scipy.spatial.transform import Rotation
from engine import Facet, Violation, Discard, close, check, raises, rot

RULE = "A case is one helper call with generated frames, angles, axes or point sets; non-trivial when the input is not the identity/zero case (rotations above 1e-3 rad, points not all equal)."


def is_rotation(tag, R, tol=1e-7):
    close(tag, R @ R.T, np.eye(3), atol=tol)
    close(tag, np.linalg.det(R), 1.0, atol=tol)


def angle_of(R):
    return float(np.linalg.norm(Rotation.from_matrix(R).as_rotvec()))


def f_wrap(g):
    k = g.choice(["small", "turns", "edge", "huge"])
    if k == "small":
        a = g.flt(-4, 4)
    elif k == "turns":
        a = g.flt(-3.1, 3.1) + 2 * math.pi * g.integer(-50, 50)
    elif k == "edge":
        a = math.pi * g.integer(-9, 9) + g.choice([0.0, 1e-9, -1e-9, 1e-4, -1e-4])
    else:
        a = g.flt(-1e6, 1e6)
    r = placo.wrap_angle(a)
    g.note(angle=a, wrapped=r)
    g.nt(abs(a) > math.pi)
    g.cls(k)
    check("range", -math.pi - 1e-12 <= r <= math.pi + 1e-12, f"{a} -> {r}")
    d = (a - r) / (2 * math.pi)
    check("equivalent", abs(d - round(d)) < 1e-9 * (1 + abs(a)), f"{a} -> {r}")
    if abs(a) < math.pi - 1e-9:
        close("already-wrapped", r, a, atol=1e-12)


def f_interpolate(g):
    A, B = g.frame(3.0), g.frame(3.0)
    if g.boolean(0.3):  # around half turns from the identity, where quaternions change sign
        A[:3, :3] = rot(g.unit(3), math.pi + g.flt(-0.3, 0.3))
    close_pair = g.boolean(0.2)
    if close_pair:
        B = A.copy()
        B[:3, :3] = A[:3, :3] @ rot(g.unit(3), g.pos(1e-6, 0.3))
    t = g.flt(0, 1)
    T = placo.interpolate_frames(A, B, t)
    rel = A[:3, :3].T @ B[:3, :3]
    ang = angle_of(rel)
    g.note(A=A, B=B, t=t)
    g.nt(ang > 1e-3 and 0 < t < 1)
    g.cls("close" if close_pair else "far", "half-turn" if ang > 3.1 else "turn")
    close("position", T[:3, 3], (1 - t) * A[:3, 3] + t * B[:3, 3], atol=1e-9)
    is_rotation("rotation", T[:3, :3])
    close("homogeneous", T[3], [0, 0, 0, 1])
    if ang < math.pi - 1e-2:
        R = A[:3, :3] @ Rotation.from_rotvec(t * Rotation.from_matrix(rel).as_rotvec()).as_matrix()
        close("constant-velocity", T[:3, :3], R, atol=1e-6)
    else:
        # any shortest way: distances to both ends are proportional
        close("distance-start", angle_of(A[:3, :3].T @ T[:3, :3]), t * ang, atol=1e-5)
        close("distance-end", angle_of(T[:3, :3].T @ B[:3, :3]), (1 - t) * ang, atol=1e-5)
    if t in (0.0, 1.0):
        close("ends", T, A if t == 0 else B, atol=1e-7)


def f_yaw(g):
    T = g.frame(3.0)
    x = T[:3, 0]
    if np.hypot(x[0], x[1]) < 1e-3:
        raise Discard()
    yaw = math.atan2(x[1], x[0])
    g.note(T=T)
    g.nt(abs(T[2, 3]) > 1e-3 and angle_of(T[:3, :3]) > 1e-3)
    y = placo.frame_yaw(np.ascontiguousarray(T[:3, :3]))
    close("yaw", [math.cos(y), math.sin(y)], [math.cos(yaw), math.sin(yaw)], atol=1e-9)
    F = placo.flatten_on_floor(T)
    close("flat-height", F[2, 3], 0.0, atol=1e-12)
    close("flat-position", F[:2, 3], T[:2, 3], atol=1e-12)
    is_rotation("flat-rotation", F[:3, :3])
    close("flat-vertical", F[:3, 2], [0, 0, 1], atol=1e-9)
    close("flat-heading", F[:3, 0], [math.cos(yaw), math.sin(yaw), 0], atol=1e-9)
    close("flat-idempotent", placo.flatten_on_floor(F), F, atol=1e-9)
    # commutes with planar motions
    P = np.eye(4)
    P[:3, :3] = rot([0, 0, 1], g.flt(-3, 3))
    P[:2, 3] = g.vec(2, -2, 2)
    close("flat-equivariant", placo.flatten_on_floor(P @ T), P @ F, atol=1e-8)


def f_axis(g):
    name = g.choice(["x", "y", "z"])
    e = np.eye(3)["xyz".index(name)]
    k = g.choice(["any", "aligned", "opposite", "near", "near-opposite", "scaled"])
    if k == "any":
        v = g.unit(3)
    elif k == "aligned":
        v = e.copy()
    elif k == "opposite":
        v = -e
    elif k == "scaled":
        v = g.unit(3) * g.pos(1e-3, 1e3)
    else:
        d = g.unit(3) * g.pos(1e-7, 1e-2)
        v = (e if k == "near" else -e) + d
    R = placo.rotation_from_axis(name, v)
    g.note(axis=name, vector=v, kind=k)
    g.nt(k not in ("aligned",))
    g.cls(k, name)
    is_rotation("axis-rotation", R)
    close("axis-image", R @ e, v / np.linalg.norm(v), atol=1e-6)
    bad = g.choice(["", "w", "xy", "X1", "0"])
    raises("unknown-axis", lambda: placo.rotation_from_axis(bad, v))


def f_optimal(g):
    n = g.integer(3, 9)
    k = g.choice(["exact", "noisy", "mirror", "planar", "unrelated", "collinear"])
    B = g.gauss_mat(n, 3)
    if k == "planar":
        B[:, 2] = 0
        B = B @ g.rotation().T
    if k == "collinear":
        B = np.outer(g.gauss_vec(n) + np.arange(n), g.unit(3))
    B = B + g.vec(3, -2, 2)
    T = g.frame(2.0)
    A = B @ T[:3, :3].T + T[:3, 3]
    if k == "noisy":
        A = A + g.gauss_mat(n, 3, g.pos(1e-4, 0.5))
    if k == "mirror":
        A = A * np.array([1, 1, -1])
    if k == "unrelated":
        A = g.gauss_mat(n, 3)
    E = placo.optimal_transformation(np.asfortranarray(A), np.asfortranarray(B))
    g.note(kind=k, n=n)
    g.nt(np.ptp(B) > 1e-3)
    g.cls(k)
    is_rotation("fit-rotation", E[:3, :3])

    def cost(X):
        return float(np.sum((A - B @ X[:3, :3].T - X[:3, 3]) ** 2))
    # independent optimum (quaternion method, Horn)
    a, b = A - A.mean(0), B - B.mean(0)
    S = b.T @ a
    Nq = np.array([
        [S[0, 0] + S[1, 1] + S[2, 2], S[1, 2] - S[2, 1], S[2, 0] - S[0, 2], S[0, 1] - S[1, 0]],
        [S[1, 2] - S[2, 1], S[0, 0] - S[1, 1] - S[2, 2], S[0, 1] + S[1, 0], S[2, 0] + S[0, 2]],
        [S[2, 0] - S[0, 2], S[0, 1] + S[1, 0], -S[0, 0] + S[1, 1] - S[2, 2], S[1, 2] + S[2, 1]],
        [S[0, 1] - S[1, 0], S[2, 0] + S[0, 2], S[1, 2] + S[2, 1], -S[0, 0] - S[1, 1] + S[2, 2]]])
    w = float(np.max(np.linalg.eigvalsh(Nq)))
    best = float(np.sum(a * a) + np.sum(b * b) - 2 * w)
    sc = float(np.sum(a * a) + np.sum(b * b))
    check("fit-optimal", cost(E) <= best + 1e-9 * (1 + sc), lambda: f"{k}: cost {cost(E)} instead of {best}")
    if k in ("exact", "planar"):
        close("fit-exact", A, B @ E[:3, :3].T + E[:3, 3], atol=1e-6)
    m = g.choice(["few", "rows", "cols"])
    if m == "few":
        raises("too-few-points", lambda: placo.optimal_transformation(np.asfortranarray(A[:2]), np.asfortranarray(B[:2])))
    elif m == "rows":
        raises("row-mismatch", lambda: placo.optimal_transformation(np.asfortranarray(A), np.asfortranarray(np.vstack([B, B[:1]]))))
    else:
        raises("column-mismatch", lambda: placo.optimal_transformation(np.asfortranarray(A[:, :2]), np.asfortranarray(B)))


def f_mask(g):
    m = placo.AxisesMask()
    Rl, Rc = g.rotation(), g.rotation()
    m.R_local_world = np.asfortranarray(Rl)
    m.R_custom_world = np.asfortranarray(Rc)
    M = g.gauss_mat(3, g.integer(2, 5))
    close("default-mask", np.asarray(m.apply(np.asfortranarray(M))).reshape(M.shape), M)
    g.note(M=M)
    log = []
    for _ in range(g.integer(1, 4)):
        axes = "".join(g.shuffle(g.subset("xyz", 0.6)))
        spelled = "".join(c.upper() if g.boolean(0.3) else c for c in axes)
        frame = g.choice(["task", "world", "local", "custom", None])
        if frame is None:
            m.set_axises(spelled)
        else:
            m.set_axises(spelled, frame)
        log.append((spelled, frame))
        if g.boolean(0.3):
            Rl = g.rotation()
            m.R_local_world = np.asfortranarray(Rl)
        R = {"local": Rl, "custom": Rc}.get(frame, np.eye(3))
        want = (R @ M)[["xyz".index(c) for c in axes], :]
        got = np.asarray(m.apply(np.asfortranarray(M))).reshape(want.shape) if want.size else np.zeros(want.shape)
        if len(axes):
            close("mask", got, want, atol=1e-9, msg=f"{log}")
        g.nt(0 < len(axes) < 3)
        g.cls(str(frame))
    raises("bad-axis", lambda: m.set_axises(g.choice(["w", "xq", "x,y", "1"]), "task"))
    raises("bad-frame", lambda: m.set_axises("x", g.choice(["", "foo", "Local "])))
    g.note(log=log)


def f_directions(g):
    n = g.integer(1, 60)
    D2 = np.asarray(placo.directions_2d(n)).reshape(n, 2)
    close("unit-2d", np.linalg.norm(D2, axis=1), np.ones(n), atol=1e-9)
    if n > 1:
        a = np.sort(np.mod(np.arctan2(D2[:, 1], D2[:, 0]), 2 * np.pi - 1e-12))
        gaps = np.diff(np.append(a, a[0] + 2 * np.pi))
        close("even-2d", gaps, np.full(n, 2 * np.pi / n), atol=1e-6)
    eps = g.flt(0.05, 1.0)
    D3 = np.asarray(placo.directions_3d(n, eps) if g.boolean() else placo.directions_3d(n)).reshape(n, 3)
    close("unit-3d", np.linalg.norm(D3, axis=1), np.ones(n), atol=1e-9)
    g.note(n=n)
    g.nt(n > 2)
    if n > 3:
        C = D3 @ D3.T - 2 * np.eye(n)
        check("distinct-3d", np.max(C) < 1 - 1e-6, f"n={n}")
    if n >= 12:
        check("balanced-3d", np.linalg.norm(D3.mean(0)) < 0.25, f"n={n} mean {D3.mean(0)}")


FACETS = [
    Facet("wrap", f_wrap, 4000, 50000, "angle outside of [-pi, pi]"),
    Facet("interpolate", f_interpolate, 5000, 80000, "relative rotation above 1e-3 and a factor strictly between 0 and 1"),
    Facet("flatten", f_yaw, 5000, 80000, "a tilted or raised frame"),
    Facet("axis", f_axis, 5000, 80000, "direction not already aligned"),
    Facet("fit", f_optimal, 4000, 60000, "points not all equal"),
    Facet("mask", f_mask, 3000, 40000, "a strict, non-empty subset of the axes"),
    Facet("directions", f_directions, 500, 3000, "more than two directions"),
]
