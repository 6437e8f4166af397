#!/usr/bin/env python3-vt
import json, jsonschema, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
R = "/root/.vp/"
jsonschema.validate(json.load(open(V + "/MANIFEST.json")), json.load(open(R + "MANIFEST.schema.json")))
s = json.load(open(R + "PROPERTIES.schema.json"))
for l in open(V + "/properties.jsonl"):
    jsonschema.validate(json.loads(l), s)
s = json.load(open(R + "EVIDENCE.schema.json"))
for f in sorted(os.listdir(V + "/evidence")):
    jsonschema.validate(json.load(open(V + "/evidence/" + f)), s)
print("valid")
