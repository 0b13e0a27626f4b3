"""Write MANIFEST.json from the check modules present in mc/ and properties.jsonl."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOT = {}  # property -> reason
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "mc", p.lower() + ".py")):
        m = importlib.import_module("mc." + p.lower())
        checks.append({
            "property": p,
            "quick_cmd": f"./check.py {p} --tier quick",
            "thorough_cmd": f"./check.py {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": m.TECHNIQUE,
            "level": m.LEVEL,
            "level_note": m.NOTE + " Assumes: " + "; ".join(m.ASSUMPTIONS) + ".",
        })
    else:
        na.append({"property": p, "reason": NOT.get(p, "no check built yet")})
json.dump({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -m compileall -q mc check.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "Model checking of the real code: see DESIGN.md. No hooks in /repo are needed.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
