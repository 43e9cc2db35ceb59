"""Regenerates MANIFEST.json: every property with a check module is claimed, the rest is not applicable (with reason)."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {
 "P40": "quantifies over numeric results of pandas aggregations on run-time logs; no sound static argument bounds or compares those numbers",
 "P41": "liveness of unbounded schedules over unbounded configurations; deadlock freedom cannot be read off the source without executing or model checking it",
 "P42": "a statistical statement about samples drawn at run time; static analysis can only show that the configured parameters reach the sampler (done under P20/P08)",
 "P43": "optimality of solver and heuristic results depends on run-time search over the whole candidate space",
 "P44": "a statistical judgement about run-time series (knee detection); no static criterion exists",
}
PENDING = "static rules for this property are designed (DESIGN.md) but the check is not built yet"
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "sa", "checks", pid.lower() + ".py")):
        m = importlib.import_module("sa.checks." + pid.lower())
        checks.append({"property": pid, "quick_cmd": f"python3 -m sa.run {pid}", "thorough_cmd": f"python3 -m sa.run {pid} --tier thorough",
                       "technique": m.TECHNIQUE, "level": getattr(m, "LEVEL", "other"), "level_note": m.NOTE})
    else: na.append({"property": pid, "reason": NA.get(pid, PENDING)})
json.dump({"version": 1, "setup_cmd": "python3 -m sa.selftest", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
