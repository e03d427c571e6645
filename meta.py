#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Edit here, run, commit both."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ED = "crates/ass-editor/"
CO = "crates/ass-core/"
RE = "crates/ass-renderer/src/"
P = []
NA = []
def mech(files, ms):
    for f in files: assert os.path.exists("/repo/" + f), f
    return [{"name": m.split(" @")[0], "where": m.split(" @")[1] if " @" in m else files[0]} for m in ms]
def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": mech(files, mechanism)}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}, technique, note))
def na(id, title, statement, over, text, why, files, mechanism, reason):
    assert len(title) <= 80, title
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": {"files": files, "mechanism": mech(files, mechanism)}}, None, None))
    NA.append({"property": id, "reason": reason})
exec(open(os.path.join(HERE, "properties.py")).read())
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _, _ in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "sim/build.sh", "checks": [], "not_applicable": NA,
     "notes": "One simulator (sim/) decides every property: `./check.sh ID` rebuilds it from /repo's working tree and runs seeded simulated executions. No hooks in /repo: the seams are the C library, the allocator, std traits and the code's own callbacks."}
for p, t, n in P:
    if t: m["checks"].append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']}", "thorough_cmd": f"./check.sh {p['id']} --tier thorough", "technique": t, "level": "exploration", "level_note": n})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p, _, _ in P: jsonschema.validate(p, s)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: pass
