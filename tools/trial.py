"""trial.py SPEC.py [ID ...]: try hand-written bugs (BUGS = [(id, prop, [(file, old, new), ...])]) in scratch copies; prints which checks catch them."""
import json, os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

J = int(os.environ.get("J", "2"))
bugs = runpy.run_path(sys.argv[1])["BUGS"]
if sys.argv[2:]:
    bugs = [b for b in bugs if b[0] in sys.argv[2:]]
free = []
for k in range(J):
    d = Path("/tmp/tw/%d" % k)
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    subprocess.run("git -C /repo archive HEAD src | tar x -C %s; mkdir %s/verif; cp -r /verif/lib /verif/checks /verif/run.sh /verif/known_findings.json %s/verif/; sed -i 's#Path(\"/repo\")#Path(\"%s\")#' %s/verif/lib/engine.py" % (d, d, d, d, d), shell=True, check=True)
    free.append(d)


def one(b):
    bid, prop, edits = b[:3]
    d = free.pop()
    saved = {}
    try:
        for f, o, n in edits:
            p = d / "src" / f
            t = p.read_text()
            saved.setdefault(p, t)
            if t.count(o) != 1:
                return "%-30s %s BADEDIT %s count=%d" % (bid, prop, f, t.count(o))
            t = t.replace(o, n)
            f.endswith(".py") and compile(t, f, "exec")
            p.write_text(t)
        res = []
        for c in prop.split():
            try:
                x = subprocess.run(["bash", str(d / "verif/run.sh"), c], capture_output=True, text=True, timeout=900, env=dict(os.environ, VERIF_TIER="quick"))
                m = [t for t in x.stdout.splitlines() if t.startswith("  monitor")]
                res.append("%s:%s %s" % (c, {1: "caught", 0: "MISSED"}.get(x.returncode, "rc%d" % x.returncode), (m or x.stdout.splitlines()[-1:] or [""])[0][:130]))
            except subprocess.TimeoutExpired:
                res.append(c + ":TIMEOUT")
        return "%-30s %s" % (bid, " ; ".join(res))
    finally:
        for p, t in saved.items():
            p.write_text(t)
        free.append(d)


with ThreadPoolExecutor(J) as ex:
    for r in ex.map(one, bugs):
        print(r, flush=True)
shutil.rmtree("/tmp/tw", ignore_errors=True)
