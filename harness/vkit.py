"""Explorer: runs every case of a check on the real code, counts, reports, writes evidence."""

import importlib
import json
import math
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from concurrent.futures import ProcessPoolExecutor, as_completed
from multiprocessing import get_context

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class Stop(Exception):
    """Raised to end a case after a recorded failure."""


class Rec:
    """What one case observed."""

    def __init__(self):
        self.keys = set()
        self.transitions = 0
        self.traces = 0
        self.fails = []
        self._tmp = None

    # ---- exploration counts
    def state(self, *key):
        """A distinct state of the explored space (hash kept, counted once)."""
        self.keys.add(hash(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        """A complete execution of the implementation compared with the model."""
        self.traces += n

    # ---- judgements
    def fail(self, msg):
        if len(self.fails) < 20:
            self.fails.append(msg)

    def true(self, cond, msg):
        if not cond:
            self.fail(msg)
        return bool(cond)

    def close(self, name, got, want, rtol=1e-8, srel=1e-9, atol=1e-12):
        """got equals want up to rounding; want may hold NaN only where got does."""
        try:
            g = np.asarray(got, dtype=float)
        except (TypeError, ValueError) as err:
            self.fail(f"{name}: not numeric ({err})")
            return False
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.fail(f"{name}: shape {g.shape} instead of {w.shape}")
            return False
        if g.size == 0:
            return True
        finite = np.abs(w[np.isfinite(w)])
        scale = float(finite.max()) if finite.size else 0.0
        with np.errstate(invalid="ignore"):
            ok = np.abs(g - w) <= rtol * np.abs(w) + srel * scale + atol
        ok |= np.isnan(g) & np.isnan(w)
        ok |= g == w
        if not ok.all():
            i = int(np.argmin(ok.ravel()))
            self.fail(f"{name}: position {i}: got {g.ravel()[i]!r}, expected {w.ravel()[i]!r}")
            return False
        return True

    def differs(self, name, got, other, rel=1e-9):
        """got really differs from other somewhere."""
        g, w = np.asarray(got, dtype=float), np.asarray(other, dtype=float)
        if g.shape == w.shape:
            with np.errstate(invalid="ignore"):
                d = np.abs(g - w) > rel * (np.abs(w).max() if w.size else 0.0)
            if not d.any():
                self.fail(f"{name}: has no effect")
                return False
        return True

    def raises(self, name, fun, kinds=(Exception,)):
        try:
            fun()
        except kinds:
            return True
        except Exception as err:  # another kind of error still refuses
            self.fail(f"{name}: raised {type(err).__name__}: {err}")
            return False
        self.fail(f"{name}: was accepted")
        return False

    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="vscm_")
        return self._tmp

    def clean(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


def key_of(case):
    return json.dumps(case, sort_keys=True, default=str)


CASE_SECONDS = 150  # far above the cost of any case: a run that does not end is a failure
ENOUGH = int(os.environ.get("VERIF_ENOUGH", "25"))  # violations after which the exploration stops


class TooLong(BaseException):
    """A case did not end."""


def _alarm(_sig, _frame):
    raise TooLong()


def run_case(mod, case):
    rec = Rec()
    rec.state("case", key_of(case))
    limit = mod.seconds(case) if hasattr(mod, "seconds") else CASE_SECONDS
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                mod.run(case, rec)
    except Stop:
        pass
    except TooLong:
        rec.fail(f"did not end within {limit} s")
    except Exception:  # noqa: BLE001 - the code under test must not fail here
        rec.fail("unexpected error: " + traceback.format_exc(limit=-6))
    finally:
        signal.alarm(0)
        rec.clean()
    return rec


_MOD = None


def _init(name):
    global _MOD
    sys.stdout = open(os.devnull, "w", encoding="utf8")
    sys.stderr = open(os.devnull, "w", encoding="utf8")
    _MOD = importlib.import_module(name)


def _work(block):
    out = []
    for i, case in block:
        rec = run_case(_MOD, case)
        out.append((i, rec.keys, rec.transitions, rec.traces, rec.fails))
    return out


def _serial(mod, items):
    so = sys.stdout
    with open(os.devnull, "w", encoding="utf8") as null:
        for i, case in items:
            sys.stdout = null
            try:
                rec = run_case(mod, case)
            finally:
                sys.stdout = so
            yield [(i, rec.keys, rec.transitions, rec.traces, rec.fails)]


def known_findings(pid):
    """Lines 'finding: property=<id> case=<json> what=<text>' of known_findings.txt."""
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf8") as f:
            for line in f:
                if line.startswith(f"finding: property={pid} case="):
                    rest = line.strip().split(" case=", 1)[1]
                    case, what = rest.split(" what=", 1)
                    out[key_of(json.loads(case))] = what
    return out


def main(pid, argv):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    name = f"checks.{pid}"
    mod = importlib.import_module(name)
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1], encoding="utf8") as f:
            rep = json.load(f)
        bad = 0
        for item in rep["violations"]:
            rec = run_case(mod, item["case"])
            print(json.dumps(item["case"]))
            for m in rec.fails:
                print("   ", m)
            bad += bool(rec.fails)
        return 1 if bad else 0
    cases = list(mod.cases(tier))
    keys = {key_of(c) for c in cases}
    if len(keys) != len(cases):
        seen, uniq = set(), []
        for c in cases:
            k = key_of(c)
            if k not in seen:
                seen.add(k)
                uniq.append(c)
        cases = uniq
    serial = getattr(mod, "SERIAL", False) or WORKERS <= 1
    if os.environ.get("VERIF_SHUFFLE"):  # the order of the cases must not count; for trying that out by hand
        random.Random(int(os.environ["VERIF_SHUFFLE"])).shuffle(cases)
    size = getattr(mod, "BLOCK", None) or max(1, min(64, math.ceil(len(cases) / (WORKERS * 6))))
    items = list(enumerate(cases))
    blocks = [items[i : i + size] for i in range(0, len(items), size)]
    states, transitions, traces, bad = set(), 0, 0, []
    done, complete = 0, True
    known = known_findings(pid)
    pool = None
    if serial:
        results = _serial(mod, items)
    else:
        pool = ProcessPoolExecutor(WORKERS, mp_context=get_context("fork"), initializer=_init, initargs=(name,))
        results = (f.result() for f in as_completed([pool.submit(_work, b) for b in blocks]))
    for res in results:
        for i, ks, tr, tc, fails in res:
            done += 1
            states |= ks
            transitions += tr
            traces += tc
            if fails:
                bad.append((i, fails))
        new = sum(key_of(cases[i]) not in known for i, _f in bad)
        if new >= ENOUGH or (new and time.time() - t0 > 400 and tier == "quick"):
            complete = done == len(cases)
            break
    if pool is not None:
        if not complete:
            for proc in list(pool._processes.values()):  # the verdict is settled: end what still runs
                proc.kill()
        pool.shutdown(wait=complete, cancel_futures=True)
    shown, viol = [], []
    for i, fails in sorted(bad):
        k = key_of(cases[i])
        if k in known:
            shown.append(known[k])
        else:
            viol.append({"case": cases[i], "fails": fails})
    for what in shown:
        print(f"KNOWN-FINDING: property={pid} {what}")
    wall = time.time() - t0
    n = len(cases)
    pickn = sorted({0, n // 7, n // 3, n // 2, (2 * n) // 3, n - 1}) if n else []
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": len(states), "transitions": transitions,
            "traces_validated_against_impl": traces,
            "cases_enumerated": n,
            "cases_explored": done,
            "exhaustive": complete,
            "bounds": mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
            "oracle": mod.ORACLE,
            "samples": [cases[i] for i in pickn],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w", encoding="utf8") as f:
        json.dump(evidence, f, indent=1, default=str)
    print(
        f"{pid} [{tier}] cases={done} states={len(states)} transitions={transitions} "
        f"traces={traces} violations={len(viol)} {wall:.1f}s"
    )
    if viol:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", pid + ".json")
        with open(path, "w", encoding="utf8") as f:
            json.dump({"property": pid, "tier": tier, "violations": viol[:25]}, f, indent=1, default=str)
        for v in viol[:3]:
            print("  case", json.dumps(v["case"], default=str)[:400])
            for m in v["fails"][:3]:
                print("    ", m[-1500:])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0
