"""A small property-based testing engine.

Every generated case is a finite list of integer choices drawn through `Gen`. The list is the whole
case: it replays the case exactly, and shrinking is done on it (delete, zero, minimise choices), so a
minimal failing case is again a list of choices, written to a replay file.

Cases run in forked workers, so a crash (signal) or a hang of the code under test is an observation
like any other: the parent knows which case was running.
"""
import hashlib
import json
import math
import mmap
import os
import random
import resource
import shutil
import signal
import struct
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property is broken by this case. `tag` names the broken clause."""

    def __init__(self, tag, msg=""):
        super().__init__(f"[{tag}] {msg}")
        self.tag = tag
        self.msg = msg


class Discard(Exception):
    """The generated case is outside of the property's domain."""


class HarnessError(Exception):
    pass


FGRID = 1 << 30


class Gen:
    def __init__(self, rng=None, prefix=None):
        self.rng = rng
        self.prefix = prefix
        self.choices = []
        self.nontrivial = False
        self.classes = set()
        self.desc = {}

    # ---- primitive
    def _draw(self, n, sampler=None):
        i = len(self.choices)
        if self.prefix is not None:
            c = self.prefix[i] if i < len(self.prefix) else 0
            c = max(0, min(int(c), n - 1))
        elif sampler is not None:
            c = sampler(self.rng)
        else:
            c = self.rng.randrange(n)
        self.choices.append(c)
        return c

    # ---- values
    def integer(self, lo, hi):
        """Uniform in [lo, hi], shrinks to lo."""
        return lo + self._draw(hi - lo + 1)

    def small(self, lo, hi):
        """In [lo, hi], biased to small values."""
        n = hi - lo + 1
        return lo + self._draw(n, lambda r: min(n - 1, int(n * r.random() ** 2)))

    def boolean(self, p=0.5):
        return bool(self._draw(2, lambda r: 1 if r.random() < p else 0))

    def choice(self, seq):
        return seq[self._draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)], shrinks to the first one."""
        tot = sum(w for w, _ in pairs)

        def s(r):
            x = r.random() * tot
            for k, (w, _) in enumerate(pairs):
                x -= w
                if x < 0:
                    return k
            return len(pairs) - 1
        return pairs[self._draw(len(pairs), s)][1]

    def flt(self, lo, hi, edge=0.1):
        """A float in [lo, hi]; with probability `edge` a simple value (0, bounds, middle, integers)."""
        simple = []
        for v in (0.0, 1.0, lo, hi, 0.5 * (lo + hi), -1.0, 0.5, -0.5):
            if lo <= v <= hi and v not in simple:
                simple.append(v)
        k = len(simple)
        c = self._draw(k + FGRID, lambda r: r.randrange(k) if r.random() < edge else k + r.randrange(FGRID))
        if c < k:
            return float(simple[c])
        return float(lo + (hi - lo) * ((c - k) / (FGRID - 1)))

    def pos(self, lo, hi):
        """Log-uniform positive float."""
        return float(math.exp(self.flt(math.log(lo), math.log(hi), 0.0)))

    def vec(self, n, lo=-1.0, hi=1.0, edge=0.1):
        return np.array([self.flt(lo, hi, edge) for _ in range(n)], dtype=float)

    def gauss_vec(self, n, scale=1.0):
        """A generic vector cheap to draw: one choice seeds a numpy generator (0 gives the zero vector)."""
        s = self._draw(1 << 31)
        if s == 0:
            return np.zeros(n)
        return np.random.Generator(np.random.PCG64(s)).standard_normal(n) * scale

    def gauss_mat(self, n, m, scale=1.0):
        return self.gauss_vec(n * m, scale).reshape(n, m)

    def unit(self, n=3):
        v = self.vec(n, -1, 1)
        nn = np.linalg.norm(v)
        if nn < 1e-2:
            v = np.zeros(n)
            v[self.integer(0, n - 1)] = 1.0
            return v
        return v / nn

    def rotation(self, max_angle=math.pi):
        """Rotation matrix: shrinks to identity; includes axis aligned, half turns and tiny angles."""
        k = self.weighted([(1, 0), (1, 1), (4, 2), (1, 3)])
        if k == 0:
            return np.eye(3)
        if k == 3:
            return rot(self.unit(3), self.choice([1e-2, 1e-3, 1e-4, 1e-6, 1e-8]))
        ang = self.flt(-max_angle, max_angle, 0.1)
        axis = np.eye(3)[self.integer(0, 2)] if k == 1 else self.unit(3)
        return rot(axis, ang)

    def frame(self, scale=1.0, max_angle=math.pi):
        T = np.eye(4)
        T[:3, :3] = self.rotation(max_angle)
        T[:3, 3] = self.vec(3, -scale, scale)
        return T

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.boolean(p)]

    def shuffle(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self._draw(len(seq))))
        return out

    # ---- bookkeeping
    def nt(self, flag=True):
        self.nontrivial = self.nontrivial or bool(flag)

    def cls(self, *names):
        self.classes.update(names)

    def note(self, **kw):
        self.desc.update(kw)


def rot(axis, ang):
    axis = np.asarray(axis, float)
    axis = axis / np.linalg.norm(axis)
    K = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]], [-axis[1], axis[0], 0]])
    return np.eye(3) + math.sin(ang) * K + (1 - math.cos(ang)) * (K @ K)


def jsonable(x, depth=0):
    if isinstance(x, np.ndarray):
        if x.size > 40:
            return {"shape": list(x.shape), "head": [float(f"{v:.6g}") for v in x.flatten()[:8]]}
        return jsonable(x.tolist(), depth)
    if isinstance(x, (np.floating, float)):
        return float(f"{float(x):.8g}") if math.isfinite(float(x)) else str(float(x))
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:40]]
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return str(x)


# ----------------------------------------------------------------------------------------------
# assertion helpers
def close(tag, got, want, atol=1e-9, rtol=1e-7, msg=""):
    got = np.asarray(got, float)
    want = np.asarray(want, float)
    if got.shape != want.shape:
        if got.size == want.size:
            got = got.reshape(want.shape)
        else:
            raise Violation(tag, f"shape {got.shape} instead of {want.shape} {msg}")
    if got.size == 0:
        return
    if not np.all(np.isfinite(got)):
        raise Violation(tag, f"non-finite result {got.flatten()[:8]} {msg}")
    d = np.abs(got - want)
    scale = max(float(np.max(np.abs(want))), 0.0)
    if float(np.max(d)) > atol + rtol * scale:
        k = int(np.argmax(d))
        raise Violation(tag, f"got {got.flatten()[k]:.10g} want {want.flatten()[k]:.10g} (entry {k}, diff {float(np.max(d)):.3g}, tol {atol + rtol * scale:.3g}) {msg}")


def check(tag, cond, msg=""):
    if not bool(cond):
        raise Violation(tag, msg if isinstance(msg, str) else msg())


def raises(tag, fn, msg=""):
    """fn must raise a Python-visible exception."""
    try:
        r = fn()
    except Violation:
        raise
    except Exception as e:
        if type(e).__name__ == "ArgumentError":  # the call did not even reach the library
            raise Violation(tag, f"the call is not accepted: {str(e)[:300]}")
        return
    raise Violation(tag, f"no error was raised, returned {r!r} {msg}")


# ----------------------------------------------------------------------------------------------
class Facet:
    def __init__(self, name, fn, quick, thorough, rule):
        self.name, self.fn, self.quick, self.thorough, self.rule = name, fn, quick, thorough, rule


def run_case(facet, g):
    """Runs one case. Returns ("ok"|"discard"|"violation"|"harness", tag, message)."""
    try:
        with np.errstate(all="ignore"):
            facet.fn(g)
        return "ok", "", ""
    except Discard:
        return "discard", "", ""
    except Violation as v:
        return "violation", v.tag, str(v)
    except HarnessError as e:
        return "harness", "harness", "".join(traceback.format_exception(e))
    except Exception as e:  # an exception of the code under test where none is allowed
        tb = traceback.extract_tb(e.__traceback__)
        where = tb[-1].name if tb else "?"
        last = [f for f in tb if "/pbt/" in f.filename]
        loc = f"{os.path.basename(last[-1].filename)}:{last[-1].name}" if last else where
        return "violation", "unexpected-error", f"unexpected {type(e).__name__}: {str(e)[:300]} at {loc}: {last[-1].line if last else ''}"


def case_rng(prop, facet, seed, i):
    return random.Random(f"{prop}/{facet}/{seed}/{i}")


CASE_TIMEOUT = float(os.environ.get("VERIF_CASE_TIMEOUT", "60"))
def address_space():
    """Bytes mapped by this process. A worker that nears its limit over many cases stops there, as with the time limit."""
    with open("/proc/self/statm") as f:
        return int(f.read().split()[0]) * resource.getpagesize()


MEMORY = 6 << 30   # address space of a worker: a runaway allocation is an error of the case, not of the machine
SHRINK_S = float(os.environ.get("VERIF_SHRINK_S", "40"))


def in_qp_library(pid):
    """Is this hung process inside of the installed QP library (whose active set method can cycle, finding F2)?"""
    import subprocess
    try:
        out = subprocess.run(["gdb", "-nx", "-p", str(pid), "-batch", "-ex", "bt 12"], stdin=subprocess.DEVNULL, capture_output=True, timeout=60).stdout.decode(errors="replace")
    except Exception:
        return False
    return "eiquadprog::solvers::solve_quadprog" in out


def run_isolated(facet, choices, timeout=CASE_TIMEOUT):
    """Replays choices in a forked child. Returns (status, tag, msg, consumed choices, desc)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            g = Gen(prefix=list(choices))
            st, tag, msg = run_case(facet, g)
            data = json.dumps([st, tag, msg, g.choices, jsonable(g.desc)]).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    t0 = time.time()
    import select
    killed = False
    while True:
        rl, _, _ = select.select([r], [], [], max(0.01, timeout - (time.time() - t0)))
        if rl:
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
        elif time.time() - t0 >= timeout:
            lib = in_qp_library(pid)
            os.kill(pid, signal.SIGKILL)
            killed = True
            break
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if killed and lib:
        return "discard", "hang", "the QP library does not return", list(choices), {}
    if killed:
        return "violation", "hang", f"no answer after {timeout} s", list(choices), {}
    if data:
        return tuple(json.loads(data.decode()))
    if os.WIFSIGNALED(status):
        return "violation", "crash", f"the process died with signal {os.WTERMSIG(status)}", list(choices), {}
    return "violation", "crash", f"the process ended without an answer (status {status})", list(choices), {}


def shrink(facet, choices, tag, budget_s=45.0):
    t0 = time.time()
    best = list(choices)
    n_try = 0
    tmo = 20.0 if tag == "hang" else 60.0

    def attempt(c):
        nonlocal best, n_try
        if time.time() - t0 > budget_s:
            return False
        n_try += 1
        st, tg, _, used, _ = run_isolated(facet, c, tmo)
        if st == "violation" and tg == tag:
            cand = used if tag not in ("crash", "hang") else list(c)
            if (len(cand), cand) < (len(best), best):
                best = cand
                return True
        return False

    improved = True
    while improved and time.time() - t0 < budget_s:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = len(best) - size
            while i >= 0 and time.time() - t0 < budget_s:
                if i + size <= len(best):
                    if attempt(best[:i] + best[i + size:]):
                        improved = True
                    elif any(best[i:i + size]) and attempt(best[:i] + [0] * size + best[i + size:]):
                        improved = True
                i -= size
            size //= 2
        for i in range(len(best)):
            if i >= len(best) or time.time() - t0 > budget_s:
                break
            for v in (0, 1, 2, 3, best[i] // 2, best[i] - 1):
                if i < len(best) and 0 <= v < best[i] and attempt(best[:i] + [v] + best[i + 1:]):
                    improved = True
                    break
    return best, n_try


def load_findings():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def load_prop(pid):
    sys.path.insert(0, os.path.join(VERIF, "pbt"))
    sys.path.insert(0, os.path.join(VERIF, "pbt", "props"))
    import importlib
    return importlib.import_module(pid.lower())


REC = struct.Struct("=qqd")


def main_run(pid, tier, seed, only=None, scale=1.0, quiet=False):
    """Runs the search. A failure that its own replay does not reproduce (it may depend on the cases run before it) is
    reported only when whole runs keep failing: two out of three."""
    t_begin = time.time()
    seen = []
    for attempt in range(3):
        rc = run_once(pid, tier, seed, only, scale, quiet, t_begin, seen)
        if rc is not None:
            return rc
    return 2


# every count of cases of the facets is multiplied by this
DEPTH = 8


def run_once(pid, tier, seed, only, scale, quiet, t_begin, seen):
    mod = load_prop(pid)
    facets = [f for f in mod.FACETS if only is None or f.name in only]
    findings = [f for f in load_findings() if f["property"] == pid]
    cap = 300.0 if tier == "quick" else 780.0
    nproc = int(os.environ.get("VERIF_JOBS", "0")) or len(os.sched_getaffinity(0))
    plan = [(fi, int((f.quick if tier == "quick" else f.thorough) * scale * DEPTH) or 1) for fi, f in enumerate(facets)]

    shm = mmap.mmap(-1, REC.size * nproc)
    tmp = os.path.join("/tmp", f"verif-{pid}-{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)

    def worker(w):
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        res = {"facets": [{"n": 0, "nt": 0, "discard": 0, "classes": {}, "samples": []} for _ in facets],
               "viol": [], "harness": [], "keys": [[] for _ in facets], "capped": False, "t": [0.0] * len(facets), "known": {}}
        t0 = time.time()
        # interleave the facets in rounds so that a time cap cuts all of them evenly
        ROUNDS = 10
        stop = False
        for rnd in range(ROUNDS):
            for fi, n in plan:
                f = facets[fi]
                lo, hi = n * rnd // ROUNDS, n * (rnd + 1) // ROUNDS
                fr = res["facets"][fi]
                for i in range(lo, hi):
                    if i % nproc != w:
                        continue
                    if time.time() - t0 > cap or (i // nproc % 64 == 63 and address_space() > MEMORY - (3 << 29)):
                        res["capped"] = True
                        stop = True
                        break
                    tc = time.time()
                    shm[w * REC.size:(w + 1) * REC.size] = REC.pack(fi, i, tc)
                    g = Gen(rng=case_rng(pid, f.name, seed, i))
                    st, tag, msg = run_case(f, g)
                    res["t"][fi] += time.time() - tc
                    if st == "discard":
                        fr["discard"] += 1
                        continue
                    if st == "harness":
                        res["harness"].append(msg)
                        stop = True
                        break
                    fr["n"] += 1
                    for c in g.classes:
                        fr["classes"][c] = fr["classes"].get(c, 0) + 1
                    if st == "violation":
                        kn = [k for k in findings if k["facet"] == f.name and k["tag"] == tag]
                        if kn:
                            res["known"][kn[0]["id"]] = res["known"].get(kn[0]["id"], 0) + 1
                            continue
                        res["viol"].append([fi, i, tag, msg, g.choices])
                        stop = True
                        break
                    if g.nontrivial:
                        h = hashlib.blake2b(repr(g.choices).encode(), digest_size=8).hexdigest()
                        res["keys"][fi].append(h)
                        if len(fr["samples"]) < 2 and g.desc:
                            fr["samples"].append({"facet": f.name, "case": i, **jsonable(g.desc)})
                if stop:
                    break
            if stop:
                break
        shm[w * REC.size:(w + 1) * REC.size] = REC.pack(-1, -1, time.time())
        with open(os.path.join(tmp, f"w{w}.tmp"), "w") as fh:
            json.dump(res, fh)
        os.rename(os.path.join(tmp, f"w{w}.tmp"), os.path.join(tmp, f"w{w}.json"))

    pids = {}
    for w in range(nproc):
        shm[w * REC.size:(w + 1) * REC.size] = REC.pack(-1, -1, time.time())
        p = os.fork()
        if p == 0:
            code = 1
            try:
                worker(w)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        pids[p] = w

    crashes = []
    cycles = []
    early = False
    while pids:
        try:
            p, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        now = time.time()
        if p == 0:
            for q, w in list(pids.items()):
                fi, i, t = REC.unpack(shm[w * REC.size:(w + 1) * REC.size])
                if fi >= 0 and now - t > CASE_TIMEOUT:
                    lib = in_qp_library(q)
                    os.kill(q, signal.SIGKILL)
                    os.waitpid(q, 0)
                    del pids[q]
                    if lib:
                        # finding F2 (of P01): the case, and what this worker had left, are not judged
                        cycles.append((facets[fi].name, i))
                        print(f"note: facet {facets[fi].name} case {i}: the QP library does not return (finding F2 of P01), case not judged", file=sys.stderr)
                        continue
                    crashes.append((fi, i, "hang", f"no answer after {CASE_TIMEOUT} s"))
                    early = True
            if early:
                for q in list(pids):
                    os.kill(q, signal.SIGKILL)
                    os.waitpid(q, 0)
                    del pids[q]
            time.sleep(0.02)
            continue
        w = pids.pop(p)
        fi, i, t = REC.unpack(shm[w * REC.size:(w + 1) * REC.size])
        if os.WIFSIGNALED(status) and fi >= 0:
            crashes.append((fi, i, "crash", f"the process died with signal {os.WTERMSIG(status)}"))
            early = True
        elif os.WIFEXITED(status) and os.WEXITSTATUS(status) != 0 and fi >= 0:
            crashes.append((fi, i, "crash", f"the worker ended with status {os.WEXITSTATUS(status)}"))
            early = True
        elif os.path.exists(os.path.join(tmp, f"w{w}.json")):
            r = json.load(open(os.path.join(tmp, f"w{w}.json")))
            if r["viol"]:
                early = True
        if early:
            for q in list(pids):
                os.kill(q, signal.SIGTERM)
                try:
                    os.waitpid(q, 0)
                except ChildProcessError:
                    pass
                del pids[q]

    # ---- aggregate
    agg = [{"facet": f.name, "cases": 0, "distinct_nontrivial": 0, "discarded": 0, "classes": {}, "cpu_s": 0.0, "rule": f.rule} for f in facets]
    keys = [set() for _ in facets]
    samples, viols, harness, known = [], [], [], {}
    capped = False
    for w in range(nproc):
        fn = os.path.join(tmp, f"w{w}.json")
        if not os.path.exists(fn):
            continue
        r = json.load(open(fn))
        os.remove(fn)
        capped |= r["capped"]
        harness += r["harness"]
        viols += r["viol"]
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
        for fi, fr in enumerate(r["facets"]):
            agg[fi]["cases"] += fr["n"]
            agg[fi]["discarded"] += fr["discard"]
            agg[fi]["cpu_s"] = round(agg[fi]["cpu_s"] + r["t"][fi], 2)
            keys[fi].update(r["keys"][fi])
            for c, k in fr["classes"].items():
                agg[fi]["classes"][c] = agg[fi]["classes"].get(c, 0) + k
            samples += fr["samples"][:1]
    shutil.rmtree(tmp, ignore_errors=True)
    for fi in range(len(facets)):
        agg[fi]["distinct_nontrivial"] = len(keys[fi])
        agg[fi]["classes"] = dict(sorted(agg[fi]["classes"].items()))
    kept, sm = {}, []
    for s in samples:
        if kept.get(s["facet"], 0) < 2:
            kept[s["facet"]] = kept.get(s["facet"], 0) + 1
            sm.append(s)

    if harness:
        print("HARNESS ERROR", harness[0], file=sys.stderr)
        return 2

    # ---- confirm, shrink, report
    for fi, i, tag, msg in crashes:
        # re-generate the choices in an isolated child that streams them
        viols.append([fi, i, tag, msg, None])
    confirmed = []
    lost = []
    unconfirmed = 0
    for fi, i, tag, msg, choices in sorted(viols, key=lambda v: (v[0], v[1]))[:3]:
        f = facets[fi]
        if choices is None:
            choices = record_choices(f, pid, seed, i)
        hits = 0
        for _ in range(3):
            st, tg, m, _, _ = run_isolated(f, choices)
            if st == "violation":
                hits += 1
                tag, msg = tg, m
                if hits == 2:
                    break
        if hits < 2:
            unconfirmed += 1
            print(f"note: facet {f.name} case {i}: not reproduced ({hits}/3): {msg}", file=sys.stderr)
            lost.append((f.name, tag, i, msg, choices))
            continue
        kn = [k for k in findings if k["facet"] == f.name and k["tag"] == tag]
        if kn:
            known[kn[0]["id"]] = known.get(kn[0]["id"], 0) + 1
            continue
        small, tries = shrink(f, choices, tag, SHRINK_S)
        st, tg, m, used, desc = run_isolated(f, small)
        if not (st == "violation"):
            small, m, desc = choices, msg, {}
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        h = hashlib.sha1(repr((pid, f.name, small)).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", f"{pid}-{f.name}-{h}.json")
        with open(path, "w") as fh:
            json.dump({"property": pid, "facet": f.name, "tag": tag, "seed": seed, "case": i, "message": m,
                       "choices": small, "original_length": len(choices), "shrink_attempts": tries, "decoded": desc}, fh, indent=1)
        confirmed.append((path, f.name, tag, m))
        break

    if lost and not confirmed:
        again = [x for x in lost if any(y[0] == x[0] and (y[1] == x[1] or "crash" in (x[1], y[1])) for y in seen)]
        seen += lost
        if not again:
            return None
        fname, tag, i, msg, choices = again[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{pid}-{fname}-run{seed}.json")
        with open(path, "w") as fh:
            json.dump({"property": pid, "facet": fname, "tag": tag, "seed": seed, "case": i, "message": msg, "choices": choices,
                       "note": "does not fail alone: fails within the whole run, replay with the run itself",
                       "run": {"tier": tier, "seed": seed, "scale": scale}}, fh, indent=1)
        confirmed.append((path, fname, tag, msg))

    total = sum(a["cases"] for a in agg)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": total, "distinct_nontrivial": sum(a["distinct_nontrivial"] for a in agg),
                       "rule": mod.RULE + " Per-facet rules are under 'facets'.",
                       "samples": sm[:12] or [{"note": "no sample recorded"}], "facets": agg,
                       "discarded": sum(a["discarded"] for a in agg), "time_capped": capped, "workers": nproc,
                       "unconfirmed": unconfirmed, "known_findings_hit": known,
                       "not_judged_qp_library_cycles": cycles},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t_begin, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for k in findings:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for a in agg:
        if not quiet:
            print(f"  {a['facet']}: {a['cases']} cases, {a['distinct_nontrivial']} distinct non-trivial, {a['discarded']} discarded, {a['cpu_s']} cpu s {a['classes']}")
    print(f"{pid} {tier} seed={seed}: {total} cases, {ev['coverage']['distinct_nontrivial']} distinct non-trivial, {ev['wall_s']} s")
    if confirmed:
        for path, fn, tag, m in confirmed:
            print(f"  facet {fn}: {m}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0


def record_choices(facet, pid, seed, i):
    """Choices of a case that crashed or hung: stream them out of a child as they are drawn."""
    r, w = os.pipe()
    child = os.fork()
    if child == 0:
        os.close(r)
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        fh = os.fdopen(w, "wb", buffering=0)

        class Rec(Gen):
            def _draw(self, n, sampler=None):
                c = super()._draw(n, sampler)
                fh.write(b"%d\n" % c)
                return c
        try:
            run_case(facet, Rec(rng=case_rng(pid, facet.name, seed, i)))
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    t0 = time.time()
    import select
    while time.time() - t0 < CASE_TIMEOUT:
        rl, _, _ = select.select([r], [], [], 1.0)
        if rl:
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
    try:
        os.kill(child, signal.SIGKILL)
    except ProcessLookupError:
        pass
    os.waitpid(child, 0)
    os.close(r)
    return [int(x) for x in data.decode().split("\n") if x.strip()]


def main_replay(path):
    d = json.load(open(path))
    if "run" in d:
        return main_run(d["property"], d["run"]["tier"], d["run"]["seed"], [d["facet"]], d["run"]["scale"])
    mod = load_prop(d["property"])
    f = [f for f in mod.FACETS if f.name == d["facet"]][0]
    st, tag, msg, used, desc = run_isolated(f, d["choices"])
    print(json.dumps(desc, indent=1))
    print(st, tag, msg)
    return 1 if st == "violation" else 0


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--facet", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int, help="run one case of --facet in-process, with traceback")
    a = ap.parse_args()
    if a.replay:
        sys.exit(main_replay(a.replay))
    if a.case is not None:
        mod = load_prop(a.property)
        f = [f for f in mod.FACETS if f.name == a.facet[0]][0]
        g = Gen(rng=case_rng(a.property, f.name, a.seed, a.case))
        try:
            f.fn(g)
        finally:
            print(json.dumps(jsonable(g.desc), indent=1))
        return
    sys.exit(main_run(a.property, a.tier, a.seed, a.facet, a.scale))
