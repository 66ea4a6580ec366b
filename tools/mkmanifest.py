"""Writes MANIFEST.json. LEVELS: what each check achieves on the unchanged tree (see DESIGN.md)."""
import json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props=[json.loads(l) for l in open("properties.jsonl")]
try:
    notes=json.load(open("tools/levels.json"))
except OSError:
    notes={}
checks=[]
for p in props:
    i=p["id"]; n=notes.get(i,{})
    checks.append(dict(property=i,quick_cmd=f"python3 check.py {i}",thorough_cmd=f"python3 check.py {i} --thorough",
      technique=n.get("technique","contracts on the real code; run-time contract evaluation (bounded stand-in)"),
      level=n.get("level","exploration"),level_note=n.get("note","Contracts evaluated on the real code for generated cases (bounded); deductive obligations not built yet.")))
json.dump(dict(version=1,setup_cmd="true",checks=checks,not_applicable=[],
  notes="No hooks in /repo. Known/fixed defects: known_findings.txt. Design: DESIGN.md."),open("MANIFEST.json","w"),indent=1)
