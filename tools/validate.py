#!/opt/veriftools/pyvenv/bin/python
"""Schema-validate the committed JSON files."""
import json, sys, glob, jsonschema
bad = 0
def v(obj, schema, what):
    global bad
    try:
        jsonschema.validate(obj, schema)
    except Exception as e:
        bad += 1
        print("INVALID", what, str(e)[:300])
S = lambda n: json.load(open("/root/.vp/%s.schema.json" % n))
ids = []
for line in open("/verif/properties.jsonl"):
    o = json.loads(line); ids.append(o["id"]); v(o, S("PROPERTIES"), o["id"])
    if o["statement"].count(". ") > 2: print("long statement", o["id"])
m = json.load(open("/verif/MANIFEST.json")); v(m, S("MANIFEST"), "MANIFEST")
claimed = [c["property"] for c in m["checks"]]; na = [c["property"] for c in m.get("not_applicable", [])]
for i in ids:
    if (i in claimed) == (i in na): bad += 1; print("claimed/na mismatch", i)
for i in claimed + na:
    if i not in ids: bad += 1; print("unknown id", i)
for f in glob.glob("/verif/evidence/*.json"): v(json.load(open(f)), S("EVIDENCE"), f)
print("ok" if not bad else "%d problems" % bad); sys.exit(bad != 0)
