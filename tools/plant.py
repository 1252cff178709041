#!/usr/bin/env python3
"""Confirm a planted bug in a scratch copy of /repo: plant.py <id>... [--notests] [--check [PROP...]]

For each /verif/seeded/<id>: applies the patch to a copy of /repo under /tmp, runs the demo on the
unchanged and the changed tree, runs the repository's tests on the changed tree, and (with --check)
this property's quick check against the changed copy. The copy is removed afterwards.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, timeout=timeout, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, check=False)


def tests(repo):
    env = dict(ENV, PYTHONPATH=os.path.join(repo, "src"))
    base = tempfile.mkdtemp()
    try:
        res = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", f"--basetemp={base}/b", "-n", "8",
                  "tests"], repo, env)
        out = res.stdout.strip().splitlines()[-1]
        if res.returncode:
            return False, out
        env.pop("MPLBACKEND")
        res = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", f"--basetemp={base}/b", "-n", "8",
                  "--dist", "loadfile", "notebooks", "--nbval", "--nbval-sanitize-with",
                  "tests/notebook-tests.cfg"], repo, env)
        return res.returncode == 0, out + " | " + res.stdout.strip().splitlines()[-1]
    finally:
        shutil.rmtree(base)


def main(args):
    flags = {a for a in args if a.startswith("--")}
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    bad = 0
    for name in ids:
        folder = os.path.join(ROOT, "seeded", name)
        prop = json.load(open(os.path.join(folder, "meta.json")))["property"]
        scratch = tempfile.mkdtemp(prefix=f"seed_{name}_")
        repo = os.path.join(scratch, "repo")
        try:
            shutil.copytree("/repo", repo, symlinks=True)
            line = [name, prop]
            if "--checkonly" not in flags:
                clean = sh(["bash", os.path.join(folder, "demo.sh")], repo)
                line.append("demo clean " + ("ok" if clean.returncode == 0 else "BAD " + clean.stdout[-400:]))
            res = sh(["git", "apply", os.path.join(folder, "patch.diff")], repo)
            if res.returncode:
                line.append("PATCH DOES NOT APPLY " + res.stdout[-300:])
            elif "--checkonly" not in flags:
                dirty = sh(["bash", os.path.join(folder, "demo.sh")], repo)
                line.append("demo changed " + ("BAD passes" if dirty.returncode == 0 else "fails: "
                                               + dirty.stdout.strip().splitlines()[-1][:150]))
                if "--notests" not in flags:
                    okay, out = tests(repo)
                    line.append(("tests ok " if okay else "TESTS FAIL ") + out)
            if flags & {"--check", "--checkonly"}:
                env = dict(ENV, VERIF_REPO=repo)
                res = sh([PY, "check.py", prop], ROOT, env)
                caught = res.returncode == 1 and f"VIOLATION property={prop}" in res.stdout
                tail = [x for x in res.stdout.splitlines() if "VIOLATION" not in x]
                line.append("CAUGHT" if caught else f"MISSED rc={res.returncode} " + " ".join(tail[-2:])[:300])
                bad += not caught
            print(" | ".join(line), flush=True)
        finally:
            shutil.rmtree(scratch)
    return bad


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
