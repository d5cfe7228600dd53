"""Writes /verif/MANIFEST.json from properties.jsonl, the check modules present, and NOTES below."""
import importlib, json, pathlib, sys

V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
NA = {}
checks, na = [], []
for line in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    id = p["id"]
    f = V / "mc" / "checks" / f"{id.lower()}.py"
    if not f.exists():
        na.append({"property": id, "reason": NA.get(id, "Check not built yet.")})
        continue
    ns = {}
    src = f.read_text()
    mod = importlib.import_module(f"mc.checks.{id.lower()}")
    tech = getattr(mod, "TECHNIQUE", "exhaustive bounded enumeration of inputs on the real code against a reference model")
    note = getattr(mod, "LEVEL_NOTE", None) or (
        "Exhaustive over the finite case space described in DESIGN.md (" + id + "): every case is executed on the real"
        " code and compared with an independent reference model. Says nothing about values and calendars outside the"
        " alphabet; trusts pandas/pint for reading results and the zoneinfo database."
    )
    checks.append({
        "property": id, "quick_cmd": f"./run.sh {id}", "thorough_cmd": f"./run.sh {id} --tier thorough",
        "technique": tech, "level": "model_checking", "level_note": note,
    })
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
       "notes": "All checks: ./run.sh <ID> [--tier quick|thorough]; ./run.sh replay <file> replays a violation. No hooks in /repo are needed."}
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not applicable")
