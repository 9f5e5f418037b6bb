#!/usr/bin/env python3
"""Runs planted bugs: applies seeded/<id>/patch.diff to /repo, builds, runs the stable tests, the demo and the property's check, and undoes it.
usage: seeded_run.py [--notest] [--all-checks] [ids...]   (development tool, no check uses it)"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
notest = "--notest" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))


def sh(c, t=900):
    try:
        p = subprocess.run(["bash", "-c", c], capture_output=True, text=True, timeout=t, cwd="/repo")
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return -9, "timeout"


base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if os.path.exists("/opt/vp/BASELINE.json") else set()
assert sh("git status --porcelain -uno")[1].strip() == "", "/repo is not clean"
if sh("bash /opt/vp/build.sh")[0]:
    sys.exit("build of the unchanged tree failed")
clean = {i: sh(f"bash {V}/seeded/{i}/demo.sh", 300) for i in ids}
for i in ids:
    D = f"{V}/seeded/{i}"
    meta = json.load(open(D + "/meta.json"))
    p = meta["property"]
    r = {"clean demo": clean[i][0]}
    if clean[i][0]:
        r["clean output"] = clean[i][1][-300:]
    try:
        rc, out = sh(f"git apply {D}/patch.diff")
        if rc:
            print(i, p, "PATCH DOES NOT APPLY", out[-300:]); continue
        rc, out = sh("bash /opt/vp/build.sh")
        if rc:
            print(i, p, "DOES NOT BUILD", out[-1500:]); continue
        if not notest:
            sh("bash /opt/vp/test.sh /tmp/seeded-out.json")
            got = set(json.load(open("/tmp/seeded-out.json"))["passed"])
            r["tests lost"] = sorted(base - got)
        rc, out = sh(f"bash {D}/demo.sh", 300)
        r["demo"] = rc
        if not rc:
            r["demo output"] = out[-300:]
        t = time.time()
        rc, out = sh(f"cd {V} && VERIF_SEED=1 ./check {p} --tier quick", 900)
        r["check"] = rc
        r["s"] = round(time.time() - t, 1)
        r["caught"] = rc == 1 and f"VIOLATION property={p} " in out
        r["by"] = [l.strip()[:160] for l in out.splitlines() if l.startswith("  facet")][:1]
    finally:
        sh("git checkout -- .")
    ok = clean[i][0] == 0 and r.get("demo") not in (0, None) and not r.get("tests lost")
    print(i, p, "VALID" if ok else "INVALID", "CAUGHT" if r.get("caught") else "MISSED", json.dumps(r), flush=True)
sh("bash /opt/vp/build.sh")
