#!/usr/bin/env python3-vt
"""Validates properties.jsonl, MANIFEST.json and evidence files against their schemas."""
import glob, json, os
import jsonschema
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(V + "/properties.jsonl"):
    jsonschema.validate(json.loads(l), ps)
jsonschema.validate(json.load(open(V + "/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
es = json.load(open("/root/.vp/EVIDENCE.schema.json"))
for f in glob.glob(V + "/evidence/*.json"):
    jsonschema.validate(json.load(open(f)), es)
print("ok")
