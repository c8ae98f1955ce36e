#!/usr/bin/env python3-vt
import json, jsonschema, glob, os
r = '/root/.vp/'
S = json.load(open(r + 'PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    x = json.loads(l)
    jsonschema.validate(x, S)
    for f in x["anchors"]["files"]:
        assert os.path.exists('/repo/' + f), f
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open(r + 'MANIFEST.schema.json')))
for f in glob.glob('/verif/evidence/*.json'):
    e = json.load(open(f))
    jsonschema.validate(e, json.load(open(r + 'EVIDENCE.schema.json')))
    c = e["coverage"]
    assert c["distinct_nontrivial"] <= c["evaluations"] and c["samples"], f
print("valid")
