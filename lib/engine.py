"""Runtime-monitoring engine shared by all checks.

A check module (checks/cNN.py) provides

    PID, RULE, REQUIRED                    identity, evidence rule, monitors that must fire
    cases(rng, tier) -> [dict]             JSON-serialisable workload descriptions
    run_case(case, rec)                    drives the real code and reports to `rec`

The engine partitions the cases statically over forked workers, collects what the
monitors observed, classifies violations against /verif/known_findings.json,
writes evidence/<PID>.json and ends with 0 (held), 1 (+ VIOLATION line) or
2 (inconclusive / broken harness).
"""

import contextlib
import hashlib
import importlib
import io
import json
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter, defaultdict
from pathlib import Path

VERIF = Path(__file__).resolve().parents[1]
REPO = Path("/repo")
REPO_SRC = str(REPO / "src")

for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True


class Timeout(BaseException):
    pass


class Inconclusive(Exception):
    """The case could not observe what the monitor needs."""


def _jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in list(x.items())[:80]}
    if isinstance(x, (list, tuple, set)):
        return [_jsonable(v, depth + 1) for v in list(x)[:80]]
    try:
        import numpy as np

        if isinstance(x, np.generic):
            return _jsonable(x.item(), depth + 1)
        if isinstance(x, np.ndarray):
            if x.size <= 64:
                return _jsonable(x.tolist(), depth + 1)
            return "ndarray%s" % (x.shape,)
    except ImportError:
        pass
    return repr(x)[:200]


class Recorder:
    """What the monitors of one case observed."""

    MAX_VIOL = 20

    def __init__(self):
        self.monitors = Counter()  # evaluations per monitor
        self.counts = Counter()  # observed events
        self.distinct = set()
        self.violations = []  # (monitor, mechanism, message, witness)
        self.harness_errors = []
        self.inconclusive = []
        self.samples = []
        self.evals = 0
        self.timed_out = False

    def check(self, mon, ok, msg="", mech=None, **witness):
        self.monitors[mon] += 1
        if not ok:
            self.violate(mon, msg, mech=mech, **witness)
        return bool(ok)

    def violate(self, mon, msg, mech=None, **witness):
        if len(self.violations) < self.MAX_VIOL:
            self.violations.append((mon, mech or mon, str(msg)[:600], _jsonable(witness)))

    def seen(self, *key):
        """Count a distinct non-trivial case."""
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        self.distinct.add(h)

    def case(self, n=1):
        self.evals += n

    def event(self, name, n=1):
        self.counts[name] += n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(_jsonable(obj))

    @contextlib.contextmanager
    def guard(self, mon, what="", mech=None, allow=(), **witness):
        """Real code on input it must handle: an exception raised by it is a violation.

        So is an exception of the monitor while it reads the outcome (a missing file, a missing column).
        """
        self.monitors[mon + ":completes"] += 1
        try:
            yield
        except Timeout:
            raise
        except allow:
            raise
        except Inconclusive:
            raise
        except (Exception, SystemExit) as e:
            tb = traceback.extract_tb(e.__traceback__)
            in_repo = [f for f in tb if f.filename.startswith(REPO_SRC)]
            text = "".join(traceback.format_exception(e))[-3000:]
            if in_repo:
                self.violate(
                    mon,
                    "%s: real code raised %s: %s (at %s:%s)"
                    % (what, type(e).__name__, str(e)[:200],
                       Path(in_repo[-1].filename).name, in_repo[-1].name),
                    mech=mech, traceback=text, **witness,
                )
            else:
                # reading back what the code produced failed: the output is not what it must be
                self.violate(
                    mon, "%s: the outcome could not be read: %s: %s" % (what, type(e).__name__, str(e)[:200]),
                    mech=mech, traceback=text, **witness,
                )

    def borrow(self, run_case, case, keep, prefix=""):
        """Run a case of another check and keep what the monitors in `keep` observed."""
        sub = Recorder()
        run_case(case, sub)
        for m, n in sub.monitors.items():
            if m in keep:
                self.monitors[prefix + m] += n
        for mon, mech, msg, wit in sub.violations:
            if mon in keep and len(self.violations) < self.MAX_VIOL:
                self.violations.append((prefix + mon, prefix + mech, msg, wit))
        self.distinct |= sub.distinct
        self.evals += sub.evals

    def merge(self, o):
        self.monitors.update(o.monitors)
        self.counts.update(o.counts)
        self.distinct |= o.distinct
        self.harness_errors += o.harness_errors[:5]
        self.inconclusive += o.inconclusive
        self.evals += o.evals


def rng_for(*key):
    """numpy Generator seeded by the key only."""
    import numpy as np

    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


def case_rng(case):
    return rng_for(case.get("kind"), case.get("seed"), case.get("i"))


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints."""
    out, err = sys.stdout, sys.stderr
    buf = io.StringIO()
    sys.stdout = sys.stderr = buf
    try:
        yield buf
    finally:
        sys.stdout, sys.stderr = out, err


@contextlib.contextmanager
def scratch(prefix="vp-"):
    d = Path(tempfile.mkdtemp(prefix=prefix, dir=os.environ.get("VP_TMP", "/tmp")))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _alarm(signum, frame):
    raise Timeout()


def run_one(mod, case, timeout):
    rec = Recorder()
    import numpy as np

    np.random.seed(int(rng_for("np", case.get("kind"), case.get("seed"), case.get("i")).integers(0, 2**32)))
    random.seed(case.get("i", 0))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(timeout))
    try:
        mod.run_case(case, rec)
    except Timeout:
        rec.timed_out = True
        rec.inconclusive.append("case timed out after %ss: %s" % (timeout, json.dumps(_jsonable(case))[:300]))
    except Inconclusive as e:
        rec.inconclusive.append(str(e))
    except (Exception, SystemExit):
        rec.harness_errors.append(traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)
    return rec


def _worker(mod, todo, path, deadline, timeout):
    out = []
    devnull = open(os.devnull, "w")
    os.dup2(devnull.fileno(), 1)
    if not os.environ.get("VP_STDERR"):
        os.dup2(devnull.fileno(), 2)
    try:
        import cv2

        cv2.setNumThreads(1)
    except ImportError:
        pass
    for idx, case in todo:
        if time.time() > deadline:
            break
        t = time.time()
        out.append((idx, run_one(mod, case, timeout), time.time() - t))
    with open(path, "wb") as f:
        pickle.dump(out, f)


def load_known():
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    return json.loads(p.read_text())["findings"]


def main(argv):
    t0 = time.time()
    pid = argv[0]
    sys.path.insert(0, str(VERIF))
    sys.path.insert(0, REPO_SRC)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        with quiet():
            mod = importlib.import_module("checks." + pid.lower())
    except Exception:
        traceback.print_exc()
        print("INCONCLUSIVE property=%s check module failed to import" % pid)
        return 2

    replay = None
    if "--replay" in argv:
        replay = json.loads(Path(argv[argv.index("--replay") + 1]).read_text())
        cases = [replay["case"]]
    else:
        cases = mod.cases(rng_for(pid, seed, tier), tier)
        for i, c in enumerate(cases):
            c.setdefault("i", i)
            c.setdefault("seed", seed)

    timeout = getattr(mod, "CASE_TIMEOUT", 120)
    budget = getattr(mod, "BUDGET", {}).get(tier, 500 if tier == "quick" else 3000)
    deadline = t0 + budget
    nw = max(1, min(getattr(mod, "WORKERS", 8), len(cases)))
    results = {}
    died = []
    with tempfile.TemporaryDirectory(prefix="vp-eng-") as td:
        os.environ["VP_TMP"] = td
        pids = []
        for w in range(nw):
            todo = [(i, c) for i, c in enumerate(cases) if i % nw == w]
            path = os.path.join(td, "r%d" % w)
            sys.stdout.flush()
            sys.stderr.flush()
            child = os.fork()
            if child == 0:
                try:
                    _worker(mod, todo, path, deadline, timeout)
                    os._exit(0)
                except BaseException:
                    traceback.print_exc()
                    os._exit(3)
            pids.append((child, path))
        for child, path in pids:
            _, st = os.waitpid(child, 0)
            if st != 0 or not os.path.exists(path):
                died.append(st)
                continue
            with open(path, "rb") as f:
                for idx, rec, wall in pickle.load(f):
                    results[idx] = (rec, wall)

    # A case that did not end is run again on its own with twice the time: only if it
    # does not end then either is the code taken not to terminate on it.
    late = [i for i in sorted(results) if results[i][0].timed_out]
    if late and not any(results[i][0].violations for i in results):
        i = late[0]
        with tempfile.TemporaryDirectory(prefix="vp-eng-") as td, quiet():
            os.environ["VP_TMP"] = td
            rec = run_one(mod, cases[i], 2 * timeout)
        if rec.timed_out:
            rec.violate("terminates", "the code did not come back within %d s, twice, on a case that takes seconds" % timeout)
        results[i] = (rec, 2.0 * timeout)

    total = Recorder()
    viols = []
    samples = []
    slow = 0.0
    for idx in sorted(results):
        rec, wall = results[idx]
        total.merge(rec)
        slow = max(slow, wall)
        for v in rec.violations:
            viols.append((cases[idx], v))
        if rec.samples and len(samples) < 4:
            samples.append({"case": _jsonable(cases[idx]), "observed": rec.samples[0]})

    known = [k for k in load_known() if k["property"] == pid and k["status"] == "known"]
    known_mechs = {k["mechanism"] for k in known}
    new = [(c, v) for c, v in viols if v[1] not in known_mechs]
    hit = Counter(v[1] for _, v in viols if v[1] in known_mechs)

    missing = [
        (m, n, total.monitors[m])
        for m, n in getattr(mod, "REQUIRED", {}).items()
        if total.monitors[m] < n
    ]

    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": int(total.evals or sum(total.monitors.values())),
            "distinct_nontrivial": len(total.distinct),
            "rule": mod.RULE,
            "samples": samples or [{"case": _jsonable(cases[0]) if cases else None}],
            "workload_cases": len(cases),
            "workload_cases_run": len(results),
            "monitor_evaluations": dict(sorted(total.monitors.items())),
            "events_observed": dict(sorted(total.counts.items())),
            "slowest_case_s": round(slow, 2),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if hit:
        ev["coverage"]["known_findings_observed"] = dict(hit)
    if not replay:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / (pid + ".json")).write_text(json.dumps(ev, indent=1))

    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if new:
        rd = VERIF / "evidence" / "replay"
        rd.mkdir(parents=True, exist_ok=True)
        seen = set()
        first = None
        for n, (c, v) in enumerate(new):
            if v[1] in seen:
                continue
            seen.add(v[1])
            p = rd / ("%s-%s-%d.json" % (pid, tier, len(seen)))
            p.write_text(json.dumps({"property": pid, "case": c, "monitor": v[0], "mechanism": v[1],
                                     "message": v[2], "witness": v[3]}, indent=1))
            first = first or p
            print("  monitor %s [%s]: %s" % (v[0], v[1], v[2][:500]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
            if len(seen) >= 12:
                break
        print("%d violation(s) over %d monitor(s)" % (len(new), len(seen)))
        return 1
    if total.harness_errors:
        print("harness error:\n" + total.harness_errors[0])
        print("INCONCLUSIVE property=%s harness errors=%d" % (pid, len(total.harness_errors)))
        return 2
    if died:
        print("INCONCLUSIVE property=%s worker died: %s" % (pid, died))
        return 2
    if replay:
        print("replay: no violation")
        return 0
    if total.inconclusive:
        print("inconclusive cases: %d, e.g. %s" % (len(total.inconclusive), total.inconclusive[0]))
        if len(total.inconclusive) > 0.1 * max(1, len(results)):
            return 2
    if missing:
        print("INCONCLUSIVE property=%s monitors not reached: %s" % (pid, missing))
        return 2
    print(
        "HELD property=%s tier=%s seed=%d cases=%d/%d evaluations=%d distinct=%d wall=%.1fs"
        % (pid, tier, seed, len(results), len(cases), ev["coverage"]["evaluations"],
           len(total.distinct), time.time() - t0)
    )
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
