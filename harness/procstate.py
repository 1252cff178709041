"""What a process has set up that a run of the model has no business changing."""

import gc
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np
import pandas as pd


def state(folder):
    s = {
        "working directory": os.getcwd(), "environment": dict(os.environ), "numpy error handling": np.geterr(),
        "numpy printing": {k: str(v) for k, v in np.get_printoptions().items()},
        "numpy random numbers": repr(np.random.get_state()), "random numbers": hash(random.getstate()),
        "warning filters": [str(f[:3]) for f in warnings.filters], "log level": logging.getLogger().level,
        "log handlers": [str(h) for h in logging.getLogger().handlers], "logging switched off": logging.root.manager.disable,
        "package log level": logging.getLogger("ciceroscm").level, "locale": locale.setlocale(locale.LC_ALL), "search path": list(sys.path),
        "standard output": id(sys.stdout), "recursion limit": sys.getrecursionlimit(), "garbage collection": gc.isenabled(),
        "interrupt": str(signal.getsignal(signal.SIGINT)), "threads": threading.active_count(),
        "open files": len([f for f in os.listdir("/proc/self/fd") if link(f).startswith(("/tmp", folder, "/repo", "/verif"))]),
        "frame options": [str(pd.get_option(o)) for o in ("display.precision", "display.max_rows", "display.float_format", "display.width", "compute.use_numexpr")],
        "arguments": list(sys.argv),
    }
    if "matplotlib" in sys.modules:
        import matplotlib as mpl

        s["matplotlib settings"] = str(dict(mpl.rcParams))
    old = os.umask(0)
    os.umask(old)
    s["umask"] = old
    return s


# what a first run must not change either (the others may change once, with the modules loaded on first use)
ALWAYS = (
    "environment", "numpy error handling", "numpy printing", "random numbers", "numpy random numbers", "locale", "standard output", "recursion limit",
    "interrupt", "frame options", "arguments", "umask", "garbage collection", "log level", "package log level",
)


def link(f):
    try:
        return os.readlink("/proc/self/fd/" + f)
    except OSError:
        return ""
