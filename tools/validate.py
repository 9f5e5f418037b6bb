#!/usr/bin/env python3-vt
import json, jsonschema, os
R = "/root/.vp/"
V = "/verif/"
s = json.load(open(R + "PROPERTIES.schema.json"))
for l in open(V + "properties.jsonl"):
    try:
        jsonschema.validate(json.loads(l), s)
    except Exception as e:
        print(json.loads(l)["id"], str(e)[:300])
if os.path.exists(V + "MANIFEST.json"):
    jsonschema.validate(json.load(open(V + "MANIFEST.json")), json.load(open(R + "MANIFEST.schema.json")))
s = json.load(open(R + "EVIDENCE.schema.json"))
for f in sorted(os.listdir(V + "evidence")):
    try:
        jsonschema.validate(json.load(open(V + "evidence/" + f)), s)
    except Exception as e:
        print(f, str(e)[:300])
print("validated")
