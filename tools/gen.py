"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parents[1]
P = []


def prop(pid, title, statement, over, quant, why, files, mech, level_note, technique, observe=None):
    P.append((dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": quant}, why_tests_cant=why,
                   anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                            **({"observe_at": observe} if observe else {})}), technique, level_note))


exec((V / "tools" / "props.txt").read_text())

(V / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p, _, _ in P))
checks = []
for p, tech, note in P:
    i = p["id"]
    assert len(p["title"]) <= 80, i
    checks.append({"property": i, "quick_cmd": "bash /verif/run.sh %s" % i,
                   "thorough_cmd": "VERIF_TIER=thorough bash /verif/run.sh %s" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks were needed in /repo: the monitors drive the public entry points and observe files, return values and audit events."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
