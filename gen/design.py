"""Assembles DESIGN.md."""
import importlib, json, pathlib, re, sys

V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from mc.bounds import BOUNDS

out = [(V / "gen/design_head.md").read_text()]
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
costs = json.loads((V / "gen/cost.json").read_text())
seeds = {p.parent.name: json.loads(p.read_text()) for p in sorted((V / "seeded").glob("*/meta.json"))}
caught = json.loads((V / "gen/caught.json").read_text())
fixed = json.loads((V / "known_findings.json").read_text())["fixed"]
out.append("## 5. Properties\n\nCost: groups / distinct states / compared transitions / wall time of the quick tier on 8 cores.\n")
for p in props:
    id = p["id"]
    mod = importlib.import_module(f"mc.checks.{id.lower()}")
    c = costs.get(id, {})
    out.append(f"### {id}: {p['title']}\n\n*Statement.* {p['statement']}\n")
    out.append(f"*Decided by* {getattr(mod, 'TECHNIQUE', 'exhaustive bounded enumeration of inputs on the real code against a reference model')}.\n")
    out.append(f"*Enumerated and monitored.* {getattr(mod, 'EXPLANATION', mod.__doc__)}\n")
    out.append(f"*Bounds.* Quick: {BOUNDS[id][0]}.  Thorough, in addition: {BOUNDS[id][1]}.\n")
    if getattr(mod, "ASSUMPTIONS", None):
        out.append("*Assumptions.* " + "; ".join(mod.ASSUMPTIONS) + ".\n")
    out.append(f"*Beyond the tests.* {p['why_tests_cant']}\n")
    if c:
        out.append(f"*Cost.* {c['groups']} / {c['states']} / {c['transitions']} / {c['wall']:.0f} s.\n")
    s = [f"`{n}`" for n, m in seeds.items() if m["property"] == id]
    if s:
        out.append(f"*Seeded changes.* {', '.join(s)}.\n")
    f = [t.split(" ", 2)[2] for t in fixed if f"property={id} " in t]
    if f:
        out.append("*Defects found and repaired.*\n" + "".join(f"\n- {re.sub(r'^([0-9a-f]{7}) ', r'`\1` ', t)}" for t in f) + "\n")
out.append("## 6. Seeded changes and which checks catch them\n")
out.append("All were written from the statements and the code, pass the stable tests, and are kept in `seeded/` with a demonstration.\n")
out.append("| change | property | needs | caught by |\n|---|---|---|---|")
for n, m in seeds.items():
    out.append(f"| `{n}` | {m['property']} | {m['needs']} | {caught.get(n, '-')} |")
out.append("")
findings = json.loads((V / "known_findings.json").read_text())["findings"]
out.append("## 7. Defects\n\nThe alarms on the original tree that were confirmed as defects were repaired if this was small and safe (`fix:` commits in `/repo`, one each, listed above per property and in"
           f" `known_findings.json`; {len(fixed)} entries).  Not repaired, because the existing tests depend on the present behaviour (they compare with an index that was renamed, respectively have"
           " mock-up values in their names; the repairs were made, found to fail the stable tests, and reverted):\n\n" + "\n".join(f"- {k['property']}: {k['what']}" for k in findings) + "\n")
if (V / "gen/design_tail.md").exists():
    out.append((V / "gen/design_tail.md").read_text())
(V / "DESIGN.md").write_text("\n".join(out))
print("DESIGN.md", sum(map(len, out)))
