#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, note, technique="stateless exhaustive enumeration of the real code against a reference model", level="model_checking", claimed=True, reason=None, hook=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, technique=technique, level=level, claimed=claimed and os.path.exists("harness/%s.cc" % id) or claimed == "py", reason=reason, hook=hook, observe=observe))

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_src.py")).read())

with open("properties.jsonl", "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": p["hook"]}
        if p["observe"]: a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks compile /repo's sources with their own harnesses", "source_commits": []},
     "notes": "Every check is self-contained: it compiles what it needs of /repo's working tree below /verif/build and explores it exhaustively within the bounds listed in its evidence file. See DESIGN.md."}
for p in P:
    if p["claimed"]:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 run_check.py %s" % p["id"], "thorough_cmd": "python3 run_check.py %s --thorough" % p["id"],
            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["reason"] or "no check has been built for it yet"})
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
import subprocess
code = '''
import json, jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json")); ids=set()
for l in open("properties.jsonl"):
    o=json.loads(l); jsonschema.validate(o,s); assert o["id"] not in ids; ids.add(o["id"])
    assert o["statement"].count(". ")<=2, (o["id"], "more than three sentences")
jsonschema.validate(json.load(open("MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(ids), "properties", len(json.load(open("MANIFEST.json"))["checks"]), "claimed")
'''
if os.path.exists("/root/.vp"): subprocess.run(["python3-vt", "-c", code], check=True)
