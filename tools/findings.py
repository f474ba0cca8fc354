"""Writes known_findings.json: known entries below, fixed entries from /repo's fix: commits (subject -> property)."""
import json, subprocess
from pathlib import Path
V = Path(__file__).resolve().parents[1]
PROP = json.loads((V / "tools" / "fixmap.json").read_text())
known = [{"property": "C03", "mechanism": "dvl-lever-arm-turning", "status": "known",
  "what": "dead-reckoned DVL track of a turning vehicle whose DVL is mounted away from the vehicle centre: an angular-rate term (omega x lever arm) is added to the DVL velocity and the lever arm is applied again when moving to the centre (process.py dead reckoning, correct_lever_arm)"}]
kf = V / "tools" / "known_extra.json"
if kf.exists():
    known += json.loads(kf.read_text())
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        s = s[5:]
        pid = PROP[s]
        out.append({"property": pid, "mechanism": "", "status": "fixed", "what": "fixed: property=%s %s %s" % (pid, h, s)})
(V / "known_findings.json").write_text(json.dumps({"findings": known + out}, indent=1) + "\n")
