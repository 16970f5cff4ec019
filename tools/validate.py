#!/usr/bin/env python3-vt
import json, jsonschema, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
S = lambda n: json.load(open(f"/root/.vp/{n}.schema.json"))
for l in open(V + "/properties.jsonl"): jsonschema.validate(json.loads(l), S("PROPERTIES"))
if os.path.exists(V + "/MANIFEST.json"): jsonschema.validate(json.load(open(V + "/MANIFEST.json")), S("MANIFEST"))
for f in os.listdir(V + "/evidence"):
    if f.endswith(".json"): jsonschema.validate(json.load(open(V + "/evidence/" + f)), S("EVIDENCE"))
print("schemas ok")
