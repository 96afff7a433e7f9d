"""validate properties/manifest/evidence against the schemas (run with python3-vt)"""
import json, sys, glob, jsonschema
S="/root/.vp/"
ps=json.load(open(S+"PROPERTIES.schema.json")); ms=json.load(open(S+"MANIFEST.schema.json")); es=json.load(open(S+"EVIDENCE.schema.json"))
bad=0
def v(o,s,n):
    global bad
    for e in jsonschema.Draft202012Validator(s).iter_errors(o):
        bad+=1; print(n,list(e.path),e.message[:200])
for l in open("/verif/properties.jsonl"):
    o=json.loads(l); v(o,ps,o["id"])
v(json.load(open("/verif/MANIFEST.json")),ms,"manifest")
for f in glob.glob("/verif/evidence/*.json"): v(json.load(open(f)),es,f)
sys.exit(bool(bad))
