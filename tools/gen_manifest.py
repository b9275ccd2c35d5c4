"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import specs
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    pid = p["id"]
    if pid in specs.CHECKS:
        c = specs.CHECKS[pid]
        m["checks"].append({
            "property": pid,
            "quick_cmd": "python3 tools/check.py %s" % pid,
            "thorough_cmd": "python3 tools/check.py %s --tier thorough" % pid,
            "technique": c["technique"],
            "level": c.get("level", "model_checking"),
            "level_note": "Holds on every execution within: " + c["bounds"] + ". " + c.get("note", "") +
                          " Trusts the reference model, the explorer and the logging stand-in; says nothing beyond the bounds.",
        })
    else:
        m["not_applicable"].append({"property": pid, "reason": specs.NOT_APPLICABLE.get(pid, "check not built yet; planned with model checking, see DESIGN.md")})
m["notes"] = "See DESIGN.md. Evidence and replays are rewritten by every run."
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
