"""Collects the cost of the quick tiers from the evidence files of the last runs (run by hand)."""
import json, pathlib, sys

V = pathlib.Path(__file__).resolve().parent.parent
out = json.loads((V / "gen/cost.json").read_text()) if (V / "gen/cost.json").exists() else {}
for d in sys.argv[1:]:
    for f in sorted(pathlib.Path(d).glob("C*.json")):
        e = json.loads(f.read_text())
        if e["tier"] == "quick" and not e["violations"]:
            out[e["property"]] = {"groups": e["coverage"]["groups"], "states": e["coverage"]["states"], "transitions": e["coverage"]["transitions"], "wall": e["wall_s"]}
(V / "gen/cost.json").write_text(json.dumps(dict(sorted(out.items())), indent=1))
print(len(out))
