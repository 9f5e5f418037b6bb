#!/usr/bin/env python3
"""Mutation sweep (development tool, no check uses it): small edits of the library's .cpp files, each compiled into a
library of its own under a scratch directory, and run against the checks anchored in that file.
usage: mutate.py OUT.jsonl SCRATCH JOBS PER_FILE SEED [file substring...]     (restarts where OUT.jsonl stopped)"""
import json, os, random, re, shutil, subprocess, sys, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT, SCR, JOBS, PER, SEED = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
ONLY = sys.argv[6:]
B = "/repo/_build"
PROPS = [  # first match: checks run for a file, in order
 ("problem/sparsity", "P02"), ("problem/polygon", "P04 P24 P44"), ("problem/integrator", "P05 P06 P40"), ("problem/problem_polynom", "P07"),
 ("problem/expression", "P03"), ("problem/variable", "P03 P06"), ("problem/", "P01 P02 P06 P03"),
 ("tools/cubic", "P07"), ("tools/polynom", "P07"), ("tools/segment", "P09"), ("tools/prioritized", "P25 P34 P22 P21"),
 ("tools/axises", "P08 P20"), ("tools/", "P08 P43"),
 ("model/", "P10 P11 P12 P13 P14 P15 P46"),
 ("kinematics/kinematics_solver", "P21 P22 P25 P23 P24"), ("kinematics/avoid", "P24 P15"), ("kinematics/.*constraint", "P24"),
 ("kinematics/", "P20 P23 P22 P25"),
 ("dynamics/contacts", "P32 P34 P30"), ("dynamics/avoid", "P35 P34"), ("dynamics/dynamics_solver", "P30 P33 P34 P32 P31"), ("dynamics/", "P31 P34"),
 ("humanoid/lipm", "P40 P44"), ("humanoid/swing", "P41 P44"), ("humanoid/humanoid_param", "P42 P43"), ("humanoid/footsteps", "P43 P42 P45"),
 ("humanoid/walk_pattern", "P44 P45 P48"), ("humanoid/walk_tasks", "P47"), ("humanoid/dummy", "P47"), ("humanoid/humanoid_robot", "P46"),
 ("humanoid/kick", "P41"), ("humanoid/", "P44"),
]
CMDS = subprocess.check_output(["ninja", "-C", B, "-t", "commands", "libplaco"], text=True).splitlines()
LINK = [c for c in CMDS if "-shared" in c and "liblibplaco.so" in c][0]
COMP = {re.search(r"-c (\S+)$", c).group(1): c.replace("/usr/bin/ccache ", "") for c in CMDS if " -c " in c}

SUBS = [
 (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
 (r" < ", " > "), (r" > ", " < "), (r" >= ", " <= "), (r" <= ", " >= "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
 (r" \+= ", " -= "), (r" \+= ", " = "), (r" -= ", " += "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.x\(\)", ".y()"), (r"\.y\(\)", ".x()"), (r"\.z\(\)", ".y()"),
 (r"\.transpose\(\)", ""), (r"\.inverse\(\)", ""), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bsin\b", "cos"), (r"\bcos\b", "sin"),
 (r"::LOCAL\b", "::WORLD"), (r"::WORLD\b", "::LOCAL"), (r"LOCAL_WORLD_ALIGNED", "WORLD"), (r"LOCAL_WORLD_ALIGNED", "LOCAL"),
 (r"!(?=[a-z_])", ""), (r"\breturn -", "return "), (r"= -(?=[a-zA-Z(])", "= "), (r"\b0\.5\b", "0.6"), (r"\b2\b", "3"), (r"\b3\b", "2"), (r"\b1\b", "0"), (r"\b0\b", "1"), (r"\b6\b", "5"),
 (r"\b1\.0?\b(?![0-9e])", "1.1"), (r"\b1e-", "1e-1"), (r"\bleft\b", "right"), (r"\bright\b", "left"), (r"\bLeft\b", "Right"), (r"\bRight\b", "Left"),
 (r"\bfabs\(", "("), (r"\bfront\(\)", "back()"), (r"\bback\(\)", "front()"), (r"\bt_start\b", "t_end"), (r"\bt_end\b", "t_start"), (r"\bdx\b", "dy"), (r"\bdtheta\b", "dx"),
 (r"\bbegin\(\)", "begin() + 1"), (r"\bframe_a\b", "frame_b"), (r"\bframe_b\b", "frame_a"), (r"\blower", "upper"), (r"\bupper", "lower"), (r"\bcontinue;", "break;"), (r"\bhard\b", "soft"), (r"\bHard\b", "Soft"), (r"\bsoft\b", "hard"),
 (r"\blength\b", "width"), (r"\bwidth\b", "length"), (r"\bforward\b", "backward"), (r"\bA_", "B_"), (r"\bfirst\b", "second"), (r"\bsecond\b", "first"),
]
SKIP = re.compile(r"^\s*(//|/\*|\*|#|std::cerr|std::cout|using |namespace |throw |\"|case |template)|oss <<|<< \"")


def mutants(path):
    s = open(path, newline="").read()
    lines = s.split("\n")
    res, block = [], False
    for i, l in enumerate(lines):
        if "/*" in l:
            block = True
        if block or SKIP.search(l) or "throw " in l or "runtime_error" in l:
            if "*/" in l:
                block = False
            continue
        code = l.split("//")[0]
        for a, b in SUBS:
            for m in re.finditer(a, code):
                if code[:m.start()].count('"') % 2:
                    continue
                if code.lstrip().startswith("for (") and a in (r"\b0\b", r"\b1\b", r" < ", r" <= "):
                    if b in (" > ", " >= "):
                        continue
                res.append((i, code[:m.start()] + b + code[m.end():]))
        t = code.strip()
        if t.endswith(";") and not t.startswith(("return", "}", "break", "const ")) and (re.match(r"^[\w\.\->\[\]\(\):\*]+(\([^=]*\)|\s*[\+\-\*]?=\s.*);$", t)) and not re.match(r"^[\w:<>\*&, ]+\s[\w]+(\s=.*|\(.*\))?;$", t):
            res.append((i, re.match(r"\s*", code).group(0) + ";"))
        if t == "return;":
            continue
    return s, lines, res


def run(job):
    path, i, new, slot_base = job
    rel = os.path.relpath(path, "/repo/src/placo")
    key = hashlib.sha1(f"{rel}:{i}:{new}".encode()).hexdigest()[:10]
    d = f"{SCR}/{key}"
    lines = open(path, newline="").read().split("\n")
    old = lines[i]
    lines[i] = new + ("\r" if old.endswith("\r") else "")
    os.makedirs(d + "/v", exist_ok=True)
    rec = {"key": key, "file": rel, "line": i + 1, "old": old.strip(), "new": new.strip()}
    try:
        src = f"{d}/{os.path.basename(path)}"
        open(src, "w", newline="").write("\n".join(lines))
        c = COMP[path]
        obj = re.search(r"-o (\S+)", c).group(1)
        c = re.sub(r"-MD -MT \S+ -MF \S+", "", c).replace(f"-o {obj}", f"-o {d}/m.o").replace(f"-c {path}", f"-I{os.path.dirname(path)} -c {src}")
        c = c.replace("-O3", "-O1")
        p = subprocess.run(c, shell=True, cwd=B, capture_output=True, text=True)
        if p.returncode:
            rec["status"] = "nobuild"
            return rec
        l = re.sub(r"-Wl,--dependency-file=\S+", "", LINK).replace("-o liblibplaco.so", f"-o {d}/liblibplaco.so").replace(f" {obj} ", f" {d}/m.o ")
        p = subprocess.run(l, shell=True, cwd=B, capture_output=True, text=True)
        if p.returncode:
            rec["status"] = "nobuild"
            return rec
        for f in ("pbt", "known-findings.json"):
            os.symlink(f"{V}/{f}", f"{d}/v/{f}") if f != "pbt" else shutil.copytree(f"{V}/{f}", f"{d}/v/{f}", ignore=shutil.ignore_patterns("__pycache__"))
        env = {"PATH": "/opt/placo-venv/bin:/usr/local/bin:/usr/bin:/bin", "PYTHONPATH": f"{B}/lib/python3.12/site-packages", "PYTHONDONTWRITEBYTECODE": "1",
               "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MPLBACKEND": "Agg", "PYTHONHASHSEED": "0", "LD_LIBRARY_PATH": d,
               "VERIF_JOBS": "1", "VERIF_CASE_TIMEOUT": "20", "VERIF_SHRINK_S": "0.1", "HOME": "/tmp"}
        props = next(b for a, b in PROPS if re.search(a, rel)).split()
        rec["status"] = "MISSED"
        for q in props:
            try:
                p = subprocess.run(["python", f"{d}/v/pbt", q], env=env, capture_output=True, text=True, timeout=600, cwd=d)
                rc, out = p.returncode, p.stdout + p.stderr
            except subprocess.TimeoutExpired:
                rc, out = -1, "timeout"
            if rc == 1 and "VIOLATION" in out:
                rec["status"] = "caught"
                rec["by"] = q + " " + ([x.strip()[:140] for x in out.splitlines() if x.startswith("  facet")] or ["?"])[0]
                return rec
            if rc != 0:
                rec["status"] = "ERROR"
                rec["by"] = f"{q} rc={rc} {out[-300:]}"
                return rec
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    done = set()
    if os.path.exists(OUT):
        done = {json.loads(l)["key"] for l in open(OUT)}
    jobs = []
    for path in sorted(COMP):
        rel = os.path.relpath(path, "/repo/src/placo")
        if ONLY and not any(o in rel for o in ONLY):
            continue
        s, lines, ms = mutants(path)
        r = random.Random(f"{rel}/{SEED}")
        r.shuffle(ms)
        # at most one or two per line, number of mutants growing with the size of the file
        n = int(PER * max(6, len(lines)) / 100)
        seen, k = {}, 0
        for i, new in ms:
            if k >= n:
                break
            if seen.get(i, 0) >= 2 or new.strip() == lines[i].strip():
                continue
            seen[i] = seen.get(i, 0) + 1
            k += 1
            key = hashlib.sha1(f"{rel}:{i}:{new}".encode()).hexdigest()[:10]
            if key not in done:
                jobs.append((path, i, new, 0))
    random.Random(SEED).shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    with ThreadPoolExecutor(JOBS) as ex, open(OUT, "a") as out:
        for rec in ex.map(run, jobs):
            out.write(json.dumps(rec) + "\n")
            out.flush()


main()
