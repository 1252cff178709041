"""Mapping a function over jobs, serially and in a pool."""

import itertools
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor

import pool
from ciceroscm.parallel._parallel_process import _parallel_process

ORACLE = "list of the function's values in job order; multiset of calls; the exception objects of the failing jobs"
BOUNDS = {
    "quick": "0..5 jobs x front serial 0..n+1 x front parallel 0..n+1 x positional/keyword x without pool or every order of completion of the pool's jobs (controlled executor); every set of 1 and 2 failing jobs of up to 4 jobs x every order; 5 kinds of results, 3 kinds of job sequences, defaults, time limits reached and not reached; real thread and process pools with 0..12 jobs; up to 129 and 1001, 2600 jobs in 3 orders",
    "thorough": "0..6 jobs with every order, every set of failing jobs of up to 4",
}
ASSUMPTIONS = ["the controlled executor keeps the contract of concurrent.futures.Executor; job functions are called in one thread at a time there"]
FRONTS = (0, 1, 2, 3, 4, 5, 6)


class Boom(Exception):
    """Raised by failing jobs."""


def twice(x):
    if x % 5 == 4:
        raise Boom(x)
    return 2 * x


def kwtwice(x, y=0):
    return 2 * x + y


def perms(n):
    return list(itertools.permutations(range(n)))


def cases(tier):
    top = 5 if tier == "quick" else 6
    for n in range(top + 1):
        for fs in range(n + 2):
            for kw in (False, True):
                yield {"t": "serial", "n": n, "fs": fs, "kw": kw}
                for fp in range(n + 2):
                    m = max(0, n - fs)
                    orders = perms(m)
                    size = 24
                    for i in range(0, len(orders), size):
                        yield {"t": "pool", "n": n, "fs": fs, "fp": fp, "kw": kw, "orders": orders[i:i + size]}
    for n in range(1, 5):
        for k in ((1, 2) if tier == "quick" else range(1, n + 1)):
            for bad in itertools.combinations(range(n), k):
                for kw in (False, True):
                    for fs in range(n + 1):
                        yield {"t": "fail", "n": n, "bad": list(bad), "fs": fs, "fp": -1, "kw": kw, "orders": [[]]}
                        for fp in range(n + 1 - fs):
                            yield {"t": "fail", "n": n, "bad": list(bad), "fs": fs, "fp": fp, "kw": kw, "orders": perms(n - fs)}
    for res in ("none", "exception", "empty", "same", "tuple"):
        for n in (1, 3, 4):
            for fs, fp in itertools.product((0, 1), (0, 1, 2)):
                yield {"t": "results", "n": n, "res": res, "fs": fs, "fp": fp}
    for seq in ("tuple", "range", "same"):
        for n in (0, 1, 4):
            for fs, fp in itertools.product((0, 1, 2), (0, 1, 2)):
                yield {"t": "seq", "n": n, "seq": seq, "fs": fs, "fp": fp}
    for n in (0, 2, 3, 5, 6, 7):
        yield {"t": "default", "n": n}
    for n in (1, 3):
        for fs, fp in ((0, 0), (0, 1), (1, 0)):
            for stuck in range(n - fs):
                yield {"t": "timeout", "n": n, "fs": fs, "fp": fp, "stuck": stuck}
            yield {"t": "intime", "n": n, "fs": fs, "fp": fp}
    for n in (7, 10, 16, 17, 33, 64, 65, 100, 101, 129) if tier == "quick" else range(7, 140):
        for fs, fp in ((0, 0), (1, 2), (3, 2), (n - 1, 0), (0, n - 1)):
            yield {"t": "many", "n": n, "fs": fs, "fp": fp}
    for n in (1001, 2600):
        yield {"t": "serial", "n": n, "fs": 0, "kw": False}
        yield {"t": "serial", "n": n, "fs": 3, "kw": True}
        for fs, fp in ((3, 2),) if n == 1001 else ((n - 60, 2),):
            yield {"t": "many", "n": n, "fs": fs, "fp": fp}
    for kind in ("thread", "process"):
        for n in (0, 1, 4, 12):
            for fs, fp in ((0, 0), (1, 2), (3, 2)):
                for kw in (False, True):
                    yield {"t": "real", "kind": kind, "n": n, "fs": fs, "fp": fp, "kw": kw}
        for n in (5, 6, 12):
            for fs, fp in ((0, 0), (1, 2), (5, 0)):
                yield {"t": "realfail", "kind": kind, "n": n, "fs": fs, "fp": fp}


def seconds(case):
    return 20 if case["t"] == "timeout" else 150


class Job:
    """Records calls; fails for the given jobs."""

    def __init__(self, bad=(), value=None):
        self.calls = []
        self.errors = {i: Boom(i) for i in bad}
        self.value = value or (lambda i: ("value", i))

    def __call__(self, x, y=None):
        self.calls.append((x, y))
        if x in self.errors:
            raise self.errors[x]
        return self.value(x)


def jobs_of(n, kw):
    return [{"x": i, "y": -i} for i in range(n)] if kw else list(range(n))


def calls_of(n, kw):
    return [(i, -i) if kw else (i, None) for i in range(n)]


def same_list(c, what, got, want):
    c.true(len(got) == len(want) and all(g is w or g == w for g, w in zip(got, want)), f"{what}: {got} instead of {want}")


def run(case, c):
    t, n = case["t"], case["n"]
    kw = case.get("kw", False)
    if t == "serial":
        job = Job()
        res = _parallel_process(job, jobs_of(n, kw), None, kw, case["fs"])
        c.step(n)
        c.trace()
        same_list(c, "results", list(res), [("value", i) for i in range(n)])
        c.true(job.calls == calls_of(n, kw), f"calls {job.calls}")
    elif t == "pool":
        for order in case["orders"]:
            job = Job()
            p = pool.Pool(pool.Schedule(order))
            with p:
                res = _parallel_process(job, jobs_of(n, kw), p, kw, case["fs"], case["fp"])
            c.state(n, case["fs"], case["fp"], tuple(order))
            c.step(n)
            c.trace()
            same_list(c, f"results with order {order}", list(res), [("value", i) for i in range(n)])
            c.true(sorted(job.calls) == sorted(calls_of(n, kw)), f"calls {job.calls}")
    elif t == "many":
        m = max(0, n - case["fs"])
        for order in (list(range(m)), list(range(m))[::-1], [(7 * i) % m if m % 7 else (11 * i) % m for i in range(m)]):
            for kw_ in (False, True):
                job = Job()
                with pool.Pool(pool.Schedule(order)) as p:
                    res = _parallel_process(job, jobs_of(n, kw_), p, kw_, case["fs"], case["fp"])
                c.step(n)
                c.trace()
                same_list(c, "results", list(res), [("value", i) for i in range(n)])
                c.true(sorted(job.calls) == sorted(calls_of(n, kw_)), f"{len(job.calls)} calls")
    elif t == "fail":
        for order in case["orders"]:
            job = Job(case["bad"])
            err = None
            args = (job, jobs_of(n, kw))
            with pool.no_sleep():
                try:
                    if case["fp"] < 0:
                        _parallel_process(*args, None, kw, case["fs"])
                    else:
                        with pool.Pool(pool.Schedule(order)) as p:
                            _parallel_process(*args, p, kw, case["fs"], case["fp"])
                except Exception as e:  # noqa: BLE001
                    err = e
            c.step(len(job.calls))
            c.trace()
            c.true(any(err is e for e in job.errors.values()), f"order {order}: failing jobs {case['bad']} reported as {err!r}")
            c.true(len(set(job.calls)) == len(job.calls), f"calls {job.calls}")
    elif t == "results":
        excs = [Boom(i) for i in range(n)]
        value = {"none": lambda i: None, "exception": lambda i: excs[i], "empty": lambda i: [], "same": lambda i: 1,
                 "tuple": lambda i: (i, None)}[case["res"]]
        for order in [None, *perms(n - case["fs"])]:
            job = Job(value=value)
            if order is None:
                res = _parallel_process(job, jobs_of(n, False), None, False, case["fs"])
            else:
                with pool.Pool(pool.Schedule(order)) as p:
                    res = _parallel_process(job, jobs_of(n, False), p, False, case["fs"], case["fp"])
            c.trace()
            same_list(c, f"results {case['res']}", list(res), [value(i) for i in range(n)])
    elif t == "seq":
        jobs = {"tuple": tuple(range(n)), "range": range(n), "same": [7] * n}[case["seq"]]
        for order in [None, *perms(max(0, n - case["fs"]))]:
            job = Job()
            if order is None:
                res = _parallel_process(job, jobs, None, False, case["fs"])
            else:
                with pool.Pool(pool.Schedule(order)) as p:
                    res = _parallel_process(job, jobs, p, False, case["fs"], case["fp"])
            c.trace()
            same_list(c, "results", list(res), [("value", i) for i in jobs])
            c.true(len(job.calls) == n, f"{len(job.calls)} calls")
    elif t == "default":
        for kwargs in ({}, {"config_are_kwargs": True}):
            for usepool in (False, True):
                job = Job()
                p = pool.Pool(pool.Schedule(list(range(n))[::-1])) if usepool else None
                res = _parallel_process(func=job, configuration=jobs_of(n, bool(kwargs)), pool=p, **kwargs)
                if p:
                    p.shutdown()
                c.trace()
                same_list(c, "results", list(res), [("value", i) for i in range(n)])
                c.true(len(job.calls) == n, f"{len(job.calls)} calls")
    elif t == "timeout":
        p = pool.Pool(pool.Schedule(never=[case["stuck"]]))
        job = Job()
        c.raises("a job that does not end in time", lambda: _parallel_process(
            job, jobs_of(n, False), p, False, case["fs"], case["fp"], timeout=0.05))
        p.shutdown(wait=False)
        c.trace()
    elif t == "intime":
        for order in perms(n - case["fs"]):
            job = Job()
            with pool.Pool(pool.Schedule(order)) as p:
                res = _parallel_process(job, jobs_of(n, False), p, False, case["fs"], case["fp"], timeout=60)
            c.trace()
            same_list(c, "results within the time limit", list(res), [("value", i) for i in range(n)])
    else:
        make = ThreadPoolExecutor if case["kind"] == "thread" else ProcessPoolExecutor
        err = res = None
        fun = twice if t == "realfail" else kwtwice
        with pool.no_sleep(), make(2) as p:
            try:
                res = _parallel_process(fun, jobs_of(n, kw), p, kw, case["fs"], case["fp"])
            except Boom as e:
                err = e
        c.step(n)
        c.trace()
        if t == "realfail":
            c.true(err is not None and err.args[0] % 5 == 4, f"failure not reported: {res}")
        else:
            c.true(list(res) == [kwtwice(*a) if kw else kwtwice(a[0]) for a in calls_of(n, kw)], f"results {res}")
