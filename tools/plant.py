"""plant.py <id>: confirm /verif/seeded/<id>: patch applies to a scratch copy, tests pass, demo 0 -> nonzero; then run the checks.

With --new PROP FILE: build patch.diff from the working-tree difference of the scratch copy /tmp/plant (already edited)."""
import json, shutil, subprocess, sys
from pathlib import Path
V = Path(__file__).resolve().parents[1]


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    for sid in sys.argv[1:]:
        d = V / "seeded" / sid
        meta = json.loads((d / "meta.json").read_text())
        assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
        r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
        a = sh("git -C /repo apply %s/patch.diff" % d)
        if a.returncode:
            print(sid, "PATCH FAILS", a.stderr)
            continue
        try:
            r1 = sh("bash %s/demo.sh" % d, cwd="/repo")
            t = sh("bash /opt/vp/test.sh /tmp/plant-out.json")
            n = len(json.loads(Path("/tmp/plant-out.json").read_text())["passed"])
            c = sh("bash /verif/run.sh %s" % meta["property"])
            caught = c.returncode == 1 and "VIOLATION property=%s " % meta["property"] in c.stdout
        finally:
            sh("git -C /repo checkout -- .")
        print("%-28s %s demo %d->%d tests=%d check=%s %s" % (sid, meta["property"], r0.returncode, r1.returncode, n,
              "CAUGHT" if caught else "MISSED rc=%d" % c.returncode, (c.stdout.splitlines() or [""])[0][:150]))
        if r0.returncode or not r1.returncode or n != 53:
            print("   INVALID", r0.stdout[-500:], r0.stderr[-800:])


main()
