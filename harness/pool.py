"""A worker pool whose jobs finish in an order the explorer chooses.

Jobs are only executed when the caller is blocked waiting for them (or after the caller
has been quiet for long), always the pending job with the lowest rank first, one at a
time, so that the caller sees every completion on its own.  All this is within what the
interface of concurrent.futures.Executor allows, so any correct caller must cope with it.
"""

import pickle
import sys
import threading
import time
from concurrent.futures import Executor, Future

_SLEEP = time.sleep


class Schedule:
    """The chosen order: rank of the i-th submitted job (in submission order)."""

    def __init__(self, ranks=(), isolate=False, never=()):
        self.ranks = list(ranks)
        self.isolate = isolate  # pass pickled copies, as between processes
        self.never = set(never)  # jobs (by submission number) that do not end
        self.submitted = 0
        self.finished = []
        self.max_workers = []

    def rank(self, i):
        return (self.ranks[i], i) if i < len(self.ranks) else (i, i)


class Pool(Executor):
    def __init__(self, schedule, max_workers=None):
        self.schedule = schedule
        schedule.max_workers.append(max_workers)
        self.lock = threading.Lock()
        self.pending = []
        self.ends = False
        self.caller = threading.get_ident()
        self.last = time.monotonic()
        self.thread = threading.Thread(target=self._loop, daemon=True)
        self.thread.start()

    # -- interface of Executor
    def submit(self, fn, /, *args, **kwargs):
        if self.ends:
            raise RuntimeError("cannot schedule new futures after shutdown")
        if self.schedule.isolate:
            args, kwargs = pickle.loads(pickle.dumps((args, kwargs)))
        f = Future()
        with self.lock:
            i = self.schedule.submitted
            self.schedule.submitted += 1
            self.pending.append((self.schedule.rank(i), i, f, fn, args, kwargs))
            self.last = time.monotonic()
        return f

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.ends = True
        if cancel_futures:
            with self.lock:
                gone, self.pending = self.pending, []
            for job in gone:
                job[2].cancel()
        if wait:
            self.thread.join(60)

    # -- scheduler
    def _caller_waits(self):
        frame = sys._current_frames().get(self.caller)
        return frame is None or frame.f_code.co_filename == threading.__file__

    def _loop(self):
        while True:
            with self.lock:
                jobs = sorted(j for j in ((p[0], n) for n, p in enumerate(self.pending)
                                          if p[1] not in self.schedule.never))
            if not jobs:
                if self.ends:
                    return
                _SLEEP(0.0003)
                continue
            if not (self.ends or self._caller_waits() or time.monotonic() - self.last > 0.5):
                _SLEEP(0.0001)
                continue
            with self.lock:
                _, i, f, fn, args, kwargs = self.pending.pop(jobs[0][1])
            if not f.set_running_or_notify_cancel():
                continue
            try:
                res = fn(*args, **kwargs)
                if self.schedule.isolate:
                    res = pickle.loads(pickle.dumps(res))
            except BaseException as err:  # noqa: BLE001 - as a worker does
                self.schedule.finished.append(i)
                f.set_exception(err)
            else:
                self.schedule.finished.append(i)
                f.set_result(res)
            _SLEEP(0.0005)  # the caller notices before the next job ends


class no_sleep:
    """time.sleep does nothing inside (the code under test sleeps before reporting failures)."""

    def __enter__(self):
        self.old = time.sleep
        time.sleep = lambda _s: None

    def __exit__(self, *_a):
        time.sleep = self.old
