import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
import props
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props.P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props.P:
    if p["claimed"]:
        assert os.path.isdir(os.path.join(here, "harness", p["id"].lower())), p["id"]
        m["checks"].append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick bash run.sh " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
import subprocess
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(here, "properties.jsonl")): jsonschema.validate(json.loads(l), sch)
    print("schemas ok", len(m["checks"]), "claimed")
except ImportError:
    print("no jsonschema: not validated")
