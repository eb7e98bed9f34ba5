"""schema check of properties.jsonl and MANIFEST.json: python3-vt validate.py"""
import json, jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open("/verif/properties.jsonl"):
    jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.load(open("/verif/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
import glob, os
if os.path.exists("/root/.vp/EVIDENCE.schema.json"):
    e = json.load(open("/root/.vp/EVIDENCE.schema.json"))
    for f in glob.glob("/verif/evidence/C*.json"):
        jsonschema.validate(json.load(open(f)), e)
print("valid")
