#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json: one check per module of pbt/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
T = {
 "P01": ("PBT: random QPs built around a witness or a certificate of infeasibility", "feasibility of the returned values re-evaluated in numpy"),
 "P02": ("PBT: random QPs, KKT certificate and metamorphic option/order changes", "KKT residual computed in numpy from the generated problem, not from the library's matrices"),
 "P03": ("PBT: random expression programs against numpy evaluation", "the same program evaluated in numpy"),
 "P04": ("PBT: random polygons, differential against exact half-plane geometry and projection", "own polygon distance and projection"),
 "P05": ("PBT: random integrators against closed form matrix exponential", "scipy matrix exponential"),
 "P06": ("stateful PBT: operation histories against a freshly built problem", "a model of the live content, rebuilt from scratch"),
 "P07": ("stateful PBT: spline histories and random polynoms against a Hermite/numpy model", "own Hermite interpolation, numpy.polynomial"),
 "P08": ("PBT: geometric identities over random frames, axes and point sets", "definitions evaluated in numpy"),
 "P09": ("PBT: random segment pairs on rational grids against exact rational geometry", "fractions.Fraction predicates"),
}
try:
    from manifest_texts import T as T2
    T.update(T2)
except ImportError:
    pass
checks, na = [], []
for i in ids:
    if os.path.exists(f"{V}/pbt/props/{i.lower()}.py"):
        tech, orc = T[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "exploration",
                       "level_note": f"Held on every generated case of the run, no claim beyond them. Oracle: {orc}. Trusts the engine in pbt/, numpy and the Python bindings as the observation point."})
    else:
        na.append({"property": i, "reason": "no check has been built for it"})
json.dump({"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the checks drive the public Python module built from /repo's working tree. Both tiers accept --seed; VERIF_SEED is used by default."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
