"""Run in a process of its own: the results of one run of every kind of model as JSON, or what the first operation of the process changed."""

import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [os.path.join(REPO, "src"), HERE, os.path.join(os.path.dirname(HERE), "checks")]


def main():
    first, out = sys.argv[1], sys.argv[2]
    if first.startswith("first:"):
        import numpy  # noqa: F401 - what they set up is theirs
        import pandas  # noqa: F401
        from procstate import ALWAYS, state

        before = state(HERE)
        import W01

        W01.operation(first[6:])()
        after = state(HERE)
        with open(out, "w", encoding="ascii") as f:
            json.dump([f"{k}: {str(before[k])[:150]} -> {str(after[k])[:150]}" for k in ALWAYS if before[k] != after[k]], f)
        return
    if first != "-":
        importlib.import_module(first)
    import W01

    snaps = W01.everything()
    with open(out, "w", encoding="ascii") as f:
        json.dump({k: {n: v if isinstance(v, list) else v.tolist() for n, v in s.items()} for k, s in snaps.items()}, f)


main()
