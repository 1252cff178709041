"""Calculations in a process that has imported the package but never used it."""

import os
import pickle
import traceback


def forked(fun, *args):
    """fun(*args) in a child process; its result, or a RuntimeError with its traceback."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = (True, fun(*args))
            except BaseException:  # noqa: BLE001
                out = (False, traceback.format_exc(limit=-6))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:  # noqa: BLE001
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        raw = f.read()
    os.waitpid(pid, 0)
    if not raw:
        raise RuntimeError("child process died")
    ok, out = pickle.loads(raw)
    if not ok:
        raise RuntimeError(out)
    return out
