"""Writes MANIFEST.json from the registry and properties.jsonl."""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Explicit-state: TLC explores the design models exhaustively within their constants and steps the TLA+ specification "
        "through every recorded execution; the executions are generated (seeded), so the binding to the code covers those executions only.")
checks, na = [], []
for p in props:
    c = registry.CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "no check registered yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 lib/check.py " + p["id"], "thorough_cmd": "python3 lib/check.py " + p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": c.get("technique", registry.TRACE),
                   "level": "model_checking", "level_note": c.get("note", NOTE)})
m = {"version": 1, "setup_cmd": "python3 lib/build.py " + " ".join(registry.VARIANTS),
     "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources unchanged and replace the system calls at link time", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Specification in TLA+ under spec/, checked with TLC; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
