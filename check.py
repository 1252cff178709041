#!/opt/venv/bin/python
"""check.py <property id> [--thorough] [--replay file]: decide one property on /repo's working tree."""

import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
for key, val in (
    ("OMP_NUM_THREADS", "1"), ("OPENBLAS_NUM_THREADS", "1"), ("MKL_NUM_THREADS", "1"),
    ("MPLBACKEND", "Agg"), ("PYTHONDONTWRITEBYTECODE", "1"), ("TQDM_DISABLE", "1"),
):
    os.environ[key] = val
os.environ.setdefault("MPLCONFIGDIR", "/tmp/vscm_mpl")
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(REPO, "src"), os.path.join(ROOT, "harness"), os.path.join(ROOT, "checks"), ROOT]

import logging  # noqa: E402

logging.disable(logging.CRITICAL)

if __name__ == "__main__":
    import vkit

    sys.exit(vkit.main(sys.argv[1], sys.argv[2:]))
