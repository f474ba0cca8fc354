"""seed.py SPEC.py: the spec defines SEEDS = [dict(id, prop, file, old, new, needs, breaks, demo)]; writes seeded/<id>/."""
import json, runpy, subprocess, sys
from pathlib import Path
V = Path(__file__).resolve().parents[1]
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
    for f, o, n in edits:
        p = Path("/repo") / f
        t = p.read_text()
        assert t.count(o) == 1, (s["id"], f, t.count(o))
        p.write_text(t.replace(o, n))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    d = V / "seeded" / s["id"]
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(diff)
    (d / "meta.json").write_text(json.dumps({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
    (d / "demo.py").write_text(s["demo"].lstrip())
    (d / "demo.sh").write_text('#!/bin/bash\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    print("wrote", s["id"])
