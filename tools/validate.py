#!/usr/bin/env python3-vt
"""Checks properties.jsonl, MANIFEST.json and evidence files against the schemas."""
import json, os, glob, jsonschema
S=lambda n: json.load(open(f"/root/.vp/{n}.schema.json"))
ids=[]
for l in open("/verif/properties.jsonl"):
    d=json.loads(l); jsonschema.validate(d,S("PROPERTIES")); ids.append(d["id"])
    for f in d["anchors"]["files"]:
        assert os.path.exists("/repo/"+f), f
m=json.load(open("/verif/MANIFEST.json")); jsonschema.validate(m,S("MANIFEST"))
for e in glob.glob("/verif/evidence/*.json"):
    jsonschema.validate(json.load(open(e)),S("EVIDENCE"))
print("ok",len(ids),len(glob.glob("/verif/evidence/*.json")))
