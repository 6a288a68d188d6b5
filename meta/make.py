"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props

NOTE = ("Necessary conditions decided for all inputs from the source alone; values computed at run time are not evaluated. Trusted: clang's AST, the "
        "engine's models of the standard containers and algorithms, the standard library itself.")
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in props.P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "bash tool/build.sh", "checks": [], "not_applicable": [],
     "notes": "All checks read /repo's current sources with a clang-based extractor (tool/factgen.cpp, built on demand) and decide in Python (sa/, checks/)."}
for p in props.P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 sa/check.py " + p["id"], "thorough_cmd": "python3 sa/check.py %s --thorough" % p["id"],
                        "technique": p["technique"], "level": "other", "level_note": (p["note"] + " " + NOTE).strip()})
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    print("schemas ok", len(m["checks"]), "checks")
except ImportError:
    print("no jsonschema")
