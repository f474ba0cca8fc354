"""Sampled source mutants, each judged by the checks of the files it touches (development tool, no check uses it).

usage: mutate.py OUT.jsonl SEED N [FILE-SUBSTRING ...]      works on copies under /tmp/mw, never on /repo
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

MAP = [
    ("auv_nav/sensors.py", "C12 C13 C03"), ("auv_nav/process.py", "C03 C04 C26 C14"), ("auv_nav/tools/interpolate.py", "C02 C04 C25"), ("auv_nav/localisation/ekf.py", "C05 C06"),
    ("auv_nav/localisation/particle_filter.py", "C08"), ("auv_nav/localisation/particle.py", "C08"), ("auv_nav/localisation/pf.py", "C08"), ("auv_nav/localisation/usbl_filter.py", "C07"), ("auv_nav/localisation/usbl_offset.py", "C07"),
    ("auv_nav/parse.py", "C10 C11 C14"), ("auv_nav/parsers/acfr_", "C25"), ("auv_nav/parsers/hybis", "C25"), ("auv_nav/convert.py", "C25 C14"), ("auv_nav/parsers/", "C12 C11 C10"), ("auv_nav/tools/csv_tools.py", "C13"),
    ("auv_nav/tools/time_conversions.py", "C11"), ("auv_nav/tools/dvl_level_arm.py", "C03"), ("auv_nav/tools/", "C01"), ("oplab/mission.py", "C16"), ("oplab/vehicle.py", "C16"), ("oplab/camera_models.py", "C27"), ("oplab/", "C15"),
    ("correct_images/corrector.py", "C21"), ("correct_images/correct_images.py", "C21 C14"), ("correct_images/parser.py", "C21"), ("correct_images/tools/numerical.py", "C19"), ("correct_images/tools/curve_fitting.py", "C19"), ("correct_images/tools/memmap.py", "C19"),
    ("correct_images/tools/", "C21 C18"), ("correct_images/corrections/attenuation.py", "C19 C18"), ("correct_images/", "C18"),
    ("auv_cal/laser_calibrator.py", "C22 C24"), ("auv_cal/plane_fitting.py", "C22"), ("auv_cal/ransac.py", "C22"), ("auv_cal/camera_calibrator.py", "C23"), ("auv_cal/calibration.py", "C23 C22"), ("auv_cal/", "C22"),
]
SKIP = re.compile(r"Console|print\(|plot|logging|warn|tqdm|verbose|raise |_path ?=|argparse|add_argument|import |\"\"\"|__name__|progress|comment|ax\.|fig|colou?r=|hist|stat_|describe")
NOFILE = re.compile(r"tests|__init__|plot|rosbag|rdi|sonardyne|voyis|gopro|koyo20|displayable|graph|console|cone_fitting|transformations|euler_angles|setup|auv_nav/auv_nav|auv_cal/auv_cal\.py")
PAIR = [("northings", "eastings"), ("roll", "pitch"), ("latitude", "longitude"), ("surge", "sway"), ("x_velocity", "y_velocity"), ("left", "right"), ("width", "height"), ("sin", "cos"), ("min", "max"), ("camera1", "camera2"), ("start", "finish")]


class Site(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out = src, []
        self.lines = src.split("\n")

    def seg(self, n):
        return ast.get_source_segment(self.src, n)

    def put(self, n, new, kind):
        if n.lineno != n.end_lineno or SKIP.search(self.lines[n.lineno - 1]):
            return
        self.out.append((n.lineno, n.col_offset, n.end_col_offset, new, kind))

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            m = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}.get(type(n.ops[0]))
            if m:
                self.put(n, "%s %s %s" % (self.seg(n.left), m, self.seg(n.comparators[0])), "compare")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        m = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}.get(type(n.op))
        if m and not (isinstance(n.op, ast.Add) and "str" in (self.seg(n) or "")) and not any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(n)):
            self.put(n, "(%s %s %s)" % (self.seg(n.left), m, self.seg(n.right)), "arith")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        if len(n.values) == 2:
            self.put(n, "(%s %s %s)" % (self.seg(n.values[0]), "or" if isinstance(n.op, ast.And) else "and", self.seg(n.values[1])), "bool")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.put(n, "(%s)" % self.seg(n.operand), "unary")
        self.generic_visit(n)

    def visit_If(self, n):
        t = n.test
        self.put(t, "not (%s)" % self.seg(t), "negate")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.put(n, str(not n.value), "const")
        elif isinstance(n.value, int) and abs(n.value) < 5000:
            self.put(n, "(%d)" % (n.value + 1), "const")
            if n.value > 0:
                self.put(n, "(%d)" % (n.value - 1), "const")
        elif isinstance(n.value, float):
            self.put(n, repr(n.value * 1.5 + 0.01), "const")

    def visit_Attribute(self, n):
        for a, b in PAIR:
            for x, y in ((a, b), (b, a)):
                if n.attr == x:
                    self.put(n, "%s.%s" % (self.seg(n.value), y), "swap")
        self.generic_visit(n)

    def visit_Name(self, n):
        for a, b in PAIR[:8]:
            for x, y in ((a, b), (b, a)):
                if n.id == x and isinstance(n.ctx, ast.Load):
                    self.put(n, y, "swap")

    def visit_Call(self, n):
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            i = len(n.args) - 2
            a, b = n.args[i], n.args[i + 1]
            if a.lineno == b.end_lineno and type(a) is type(b) and self.seg(a) != self.seg(b) and not SKIP.search(self.lines[a.lineno - 1]):
                self.out.append((a.lineno, a.col_offset, b.end_col_offset, "%s, %s" % (self.seg(b), self.seg(a)), "argswap"))
        self.generic_visit(n)

    def stmt(self, n):
        if n.lineno == n.end_lineno:
            self.put(n, "pass", "delete")

    def visit_AugAssign(self, n):
        self.stmt(n)
        self.generic_visit(n)

    def visit_Expr(self, n):
        if not isinstance(n.value, ast.Constant):
            self.stmt(n)
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.put(n, "pass", "delete")

    def visit_Break(self, n):
        self.put(n, "continue", "loop")

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            s = n.slice
            lo, hi = self.seg(s.lower) if s.lower else "", self.seg(s.upper) if s.upper else ""
            if s.step is None:
                if hi:
                    self.put(n, "%s[%s:(%s) - 1]" % (self.seg(n.value), lo, hi), "slice")
                if lo:
                    self.put(n, "%s[(%s) + 1:%s]" % (self.seg(n.value), lo, hi), "slice")
        self.generic_visit(n)


def checks_of(f):
    for k, v in MAP:
        if k in f:
            return v.split()
    return []


def sites(subset):
    out = []
    for p in sorted(Path("/repo/src").rglob("*.py")):
        f = str(p.relative_to("/repo/src"))
        if NOFILE.search(f) or f.startswith("scripts") or not checks_of(f) or (subset and not any(s in f for s in subset)):
            continue
        src = p.read_text()
        if not src.isascii():
            continue
        v = Site(src)
        v.visit(ast.parse(src))
        out += [(f,) + s for s in sorted(set(v.out))]
    return out


def main():
    out, seed, n = Path(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
    rng = random.Random(seed)
    S = sites(sys.argv[4:])
    by = {}
    for s in S:
        by.setdefault(s[0], []).append(s)
    # square-root weighting over the files
    pick = []
    files = sorted(by)
    w = [len(by[f]) ** 0.6 for f in files]
    while len(pick) < min(n, len(S)):
        s = rng.choice(by[rng.choices(files, w)[0]])
        if s not in pick:
            pick.append(s)
    print(len(S), "sites,", len(pick), "picked")
    J = int(os.environ.get("J", "3"))
    free = []
    for k in range(J):
        d = Path("/tmp/mw/%d" % k)
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir(parents=True)
        subprocess.run("git -C /repo archive HEAD src | tar x -C %s; mkdir %s/verif; git -C /verif archive HEAD lib checks run.sh known_findings.json | tar x -C %s/verif; cp -r /verif/lib /verif/checks %s/verif/; sed -i 's#Path(\"/repo\")#Path(\"%s\")#' %s/verif/lib/engine.py" % (d, d, d, d, d, d), shell=True, check=True)
        free.append(d)

    def one(m):
        f, line, a, b, new, kind = m
        d = free.pop()
        p = d / "src" / f
        src = p.read_text()
        try:
            L = src.split("\n")
            old = L[line - 1]
            L[line - 1] = old[:a] + new + old[b:]
            text = "\n".join(L)
            r = {"file": f, "line": line, "kind": kind, "old": old.strip(), "new": L[line - 1].strip()}
            try:
                compile(text, f, "exec")
            except SyntaxError:
                return dict(r, verdict="syntax")
            p.write_text(text)
            verdict, by_ = "SURVIVED", []
            for c in checks_of(f):
                try:
                    x = subprocess.run(["bash", str(d / "verif/run.sh"), c], capture_output=True, text=True, timeout=600, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                    rc = x.returncode
                    msg = [t for t in x.stdout.splitlines() if t.startswith("  monitor")][:1] or x.stdout.splitlines()[-1:]
                except subprocess.TimeoutExpired:
                    rc, msg = -1, ["timeout"]
                by_.append((c, rc, (msg or [""])[0][:160]))
                if rc == 1:
                    verdict = "caught"
                    break
            return dict(r, verdict=verdict, by=by_)
        finally:
            p.write_text(src)
            free.append(d)

    with ThreadPoolExecutor(J) as ex, out.open("a") as g:
        for r in ex.map(one, pick):
            g.write(json.dumps(r) + "\n")
            g.flush()


main()
