#!/usr/bin/env python3-vt
"""Validates properties.jsonl and MANIFEST.json against the schemas and the
anchored files against /repo."""
import json, jsonschema, os
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
n = 0
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)
    jsonschema.validate(p, s)
    n += 1
    for f in p["anchors"]["files"] + [m["where"] for m in p["anchors"]["mechanism"]] + [m["where"] for m in p["anchors"]["state"]]:
        if not os.path.exists("/repo/" + f.split(":")[0]):
            print("missing", p["id"], f)
m = json.load(open('/verif/MANIFEST.json'))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(n, "properties,", len(m["checks"]), "checks")
