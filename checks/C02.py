"""Configuration lists in chunks and files."""

import copy
import itertools
import json
import math
import os

import numpy as np

from ciceroscm.parallel._configdistro import _ConfigDistro
from ciceroscm.parallel.distributionrun import DistributionRun

ORACLE = "strata of the whole sample counted over all chunks; plain JSON reading of the files; equality of configurations"
BOUNDS = {
    "quick": "1..9 values x chunk sizes 1..11 and none x 4 prefixes x 5 file names x 3 kinds of meta information x 2 methods; 9 sizes of 25..250 values x 16 chunk sizes; all sequences of 1..3 read/write operations over 4 kinds (with and without new meta information) from 2 layouts; 12 wrong layouts; every truncation of a file; awkward values",
    "thorough": "1..14 values, sequences of 4 operations",
}
PREFIX = ["", "a", "run_7_", "é|x"]
FILES = [None, "c.json", "c.v1.json", "noext", "d.1/c.json", "d.1/noext", "chunk_0.json"]
META = {"none": None, "some": {"who": "me", "n": 3, "list": [1, 2.5, None, True], "deep": {"a": {"b": "c"}}}, "empty": {}}
DISTRO = {"lambda": [0.5, 1.5], "qbc": [-4.0, -3.0], "beta_f": [10.0, 12.0]}
HOME = {"lambda": "pamset_udm", "qbc": "pamset_emiconc", "beta_f": "pamset_carbon"}


def cases(tier):
    deep = tier != "quick"
    for n in range(1, 15 if deep else 10):
        for size in [None, *range(1, 17 if deep else 12)]:
            for method in ("latin", "gaussian"):
                yield {"t": "chunks", "n": n, "size": size, "method": method}
    for n in (25, 99, 100, 101, 110, 121, 132, 200, 250, *((500, 1001, 2000) if deep else ())):
        for size in (1, 2, 3, 5, 9, 10, 11, 12, 15, 20, 99, 100, 101, 120, n - 1, n):
            yield {"t": "many", "n": n, "size": size}
    for layout in ("list", "dict"):
        for k in (1, 2, 3, 4) if deep else (1, 2, 3):
            for ops in itertools.product(("same", "newmeta", "other", "emptymeta"), repeat=k):
                yield {"t": "history", "layout": layout, "ops": list(ops)}
    for n in (1, 3):
        for size in (None, 1, 2):
            for meta in META:
                yield {"t": "reread", "n": n, "size": size, "meta": meta}
                yield {"t": "torn", "n": n, "size": size, "meta": meta}
    yield {"t": "wrong"}
    yield {"t": "awkward"}
    yield {"t": "seeded"}


def strata(c, what, cfgs, n):
    for p, (lo, hi) in DISTRO.items():
        got = sorted(min(n - 1, max(0, math.floor((cfg[HOME[p]][p] - lo) / (hi - lo) * n))) for cfg in cfgs)
        if not c.true(got == list(range(n)), f"{what}: {p} has strata {got} of {n}"):
            return


def plain(cfgs):
    return json.loads(json.dumps(cfgs, default=float))


def listing(folder):
    return sorted(os.path.relpath(os.path.join(d, f), folder) for d, _s, fs in os.walk(folder) for f in fs)


def read(path):
    with open(path, encoding="utf-8") as f:
        return json.load(f)


def split(content):
    """(configurations, meta information) of a file's content."""
    if isinstance(content, list):
        return content, None
    return content["configurations"], content["meta_info"]


def run(case, c):
    t = case["t"]
    if t == "chunks":
        n, size, method = case["n"], case["size"], case["method"]
        d = _ConfigDistro(DISTRO, {"lm": 12, "qo3": 0.4}, {"method": method})
        k = 0
        for prefix, fname, meta in itertools.product(PREFIX, FILES, META):
            if fname is None and meta != "none":
                continue
            k += 1
            folder = os.path.join(c.tmp(), str(k))
            os.makedirs(os.path.join(folder, "d.1"))
            path = None if fname is None else os.path.join(folder, fname)
            kw = {} if size is None else {"max_chunk_size": size}
            if path is not None:
                kw["json_fname"] = path
            if META[meta] is not None:
                kw["meta_info"] = copy.deepcopy(META[meta])
            out = d.make_config_lists(n, indexer_pre=prefix, **kw)
            c.step(n)
            c.trace()
            c.state(n, size, method, prefix, fname, meta)
            what = f"prefix {prefix!r} file {fname}"
            if size is None or size > n:
                lists = [out]
            elif size == n and out and isinstance(out[0], dict):
                lists = [out]
            else:
                lists = out
            if not c.true(all(isinstance(x, list) and all(isinstance(y, dict) for y in x) for x in lists), f"{what}: shape of result"):
                return
            if size is not None:
                c.true(all(0 < len(x) <= size for x in lists), f"{what}: chunks of {[len(x) for x in lists]}")
            flat = [y for x in lists for y in x]
            if not c.true(len(flat) == n, f"{what}: {len(flat)} configurations of {n}"):
                return
            idx = [y["Index"] for y in flat]
            c.true(len(set(idx)) == n, f"{what}: index repeated {idx}")
            c.true(all(i.startswith(prefix) for i in idx), f"{what}: prefix missing {idx[:2]}")
            for p in DISTRO:
                c.true(len({y[HOME[p]][p] for y in flat}) == n, f"{what}: {p} repeated")
            c.true(all(y["pamset_udm"]["lm"] == 12 and y["pamset_emiconc"]["qo3"] == 0.4 for y in flat), f"{what}: fixed values")
            if method == "latin":
                strata(c, what, flat, n)
            files = listing(folder)
            if path is None:
                c.true(files == [], f"{what}: wrote {files}")
                continue
            if not c.true(len(files) == len(lists), f"{what}: {len(lists)} lists in files {files}"):
                return
            if len(lists) == 1 and (size is None or size > n):
                c.true(files == [os.path.normpath(fname)], f"{what}: file {files}")
            base, ext = os.path.splitext(fname)
            c.true(all(f.startswith(base) and f.endswith(ext) for f in files), f"{what}: files {files}")
            contents = [split(read(os.path.join(folder, f))) for f in files]
            wanted = [plain(x) for x in lists]
            for cfgs, m in contents:
                c.true(cfgs in wanted, f"{what}: a file holds other configurations")
                if cfgs in wanted:
                    wanted.remove(cfgs)
                if META[meta] is not None:
                    c.true(m == META[meta], f"{what}: meta information {m}")
    elif t == "many":
        n, size = case["n"], case["size"]
        d = _ConfigDistro(DISTRO, {"lm": 12, "qo3": 0.4}, {"method": "latin"})
        for fname in ("m.json", None):
            folder = os.path.join(c.tmp(), str(fname))
            os.makedirs(folder)
            out = d.make_config_lists(n, json_fname=fname and os.path.join(folder, fname), indexer_pre="m", max_chunk_size=size)
            lists = [out] if isinstance(out[0], dict) else out
            c.step(n)
            c.trace()
            c.true(all(0 < len(x) <= size or len(lists) == 1 and size > n for x in lists), f"chunks of {[len(x) for x in lists]}")
            flat = [y for x in lists for y in x]
            if not c.true(len(flat) == n, f"{len(flat)} configurations"):
                return
            c.true(len({y["Index"] for y in flat}) == n, f"index repeated in chunks of {size}")
            c.true(all(y["Index"].startswith("m") for y in flat), "prefix")
            strata(c, f"chunks of {size}", flat, n)
            files = listing(folder)
            if c.true(len(files) == (len(lists) if fname else 0), f"{len(lists)} lists in {len(files)} files"):
                wanted = {json.dumps(plain(x), sort_keys=True) for x in lists}
                for f in files:
                    c.true(json.dumps(split(read(os.path.join(folder, f)))[0], sort_keys=True) in wanted, f"{f}: other configurations")
                    wanted.discard(json.dumps(split(read(os.path.join(folder, f)))[0], sort_keys=True))
    elif t == "history":
        folder = c.tmp()
        path = os.path.join(folder, "start.json")
        d = _ConfigDistro(DISTRO, {"lm": 12}, {"method": "latin"})
        meta = None if case["layout"] == "list" else {"first": 1}
        cfgs = plain(d.make_config_lists(3, json_fname=path, indexer_pre="h", **({"meta_info": meta} if meta else {})))
        for i, op in enumerate(case["ops"]):
            r = DistributionRun(None if i % 2 else d, json_file_name=path, numvalues=7)
            c.step()
            c.true(plain(r.cfgs) == cfgs, f"step {i}: configurations after reading")
            new = os.path.join(folder, f"{i}.json") if op != "other" else path
            if op == "newmeta":
                meta = {"step": i}
                r.write_configs_to_json(new, meta_info=dict(meta))
            elif op == "emptymeta":
                meta = {}
                r.write_configs_to_json(new, meta_info={})
            else:
                r.write_configs_to_json(new)
            path = new
            got, m = split(read(path))
            c.true(got == cfgs, f"step {i}: configurations after writing")
            c.true(m == meta, f"step {i}: meta information {m} instead of {meta}")
            c.state(case["layout"], tuple(case["ops"][: i + 1]))
        c.trace()
    elif t in ("reread", "torn"):
        folder = c.tmp()
        d = _ConfigDistro(DISTRO, {}, {"method": "latin"})
        kw = {} if META[case["meta"]] is None else {"meta_info": META[case["meta"]]}
        out = d.make_config_lists(case["n"], json_fname=os.path.join(folder, "x.json"), indexer_pre="p", max_chunk_size=case["size"], **kw)
        lists = [out] if case["size"] is None or case["size"] > case["n"] else out
        left = [plain(x) for x in (lists if isinstance(lists[0], list) else [lists])]
        for f in listing(folder):
            path = os.path.join(folder, f)
            if t == "reread":
                r = DistributionRun(None, json_file_name=path)
                c.trace()
                c.true(plain(r.cfgs) in left, f"{f}: other configurations")
                if plain(r.cfgs) in left:
                    left.remove(plain(r.cfgs))
                continue
            with open(path, encoding="utf-8") as fh:
                text = fh.read()
            part = os.path.join(folder, "part")
            for k in range(len(text.rstrip())):
                with open(part, "w", encoding="utf-8") as fh:
                    fh.write(text[:k])
                c.state("torn", case["meta"], k)
                c.step()
                if not c.raises(f"the first {k} characters of a file", lambda: DistributionRun(d, json_file_name=part, numvalues=2)):
                    return
            os.remove(part)
        if t == "reread":
            c.true(not left, "a list was not written")
    elif t == "wrong":
        d = _ConfigDistro(DISTRO, {}, {})
        for i, x in enumerate(({}, {"configs": []}, {"meta_info": {}}, "text", "configurations", 3, 2.5, None, True, {"a": [1]}, {"Configurations": []}, {"0": {"configurations": 1}})):
            path = os.path.join(c.tmp(), f"w{i}.json")
            with open(path, "w", encoding="utf-8") as f:
                json.dump(x, f)
            c.trace()
            c.raises(f"layout {x!r}", lambda p=path: DistributionRun(d, json_file_name=p, numvalues=2), (ValueError, TypeError, KeyError))
        r = DistributionRun(d, json_file_name=os.path.join(c.tmp(), "absent.json"), numvalues=4, indexer_pre="q")
        c.true(len(r.cfgs) == 4 and all(x["Index"].startswith("q") for x in r.cfgs), "a file that does not exist")
        strata(c, "absent file", r.cfgs, 4)
    elif t == "awkward":
        vals = [0, -0.0, 1e-300, 1.7976931348623157e308, 0.1 + 0.2, 1 / 3, 12345678901234567890, True, None, "text", "é", [1.0, 2.0], {"coeffs": [0.5, 0.5], "timescales": [1.0, 2.0]}]
        cfgs = [{"pamset_udm": {"lambda": v}, "pamset_emiconc": {}, "pamset_carbon": {"rb_function": v}, "Index": f"{i}"} for i, v in enumerate(vals)]
        cfgs += [{"Index": "only"}, {"Index": "0", "extra": [1, {"x": "y"}]}, {"Index": "0", "extra": [1, {"x": "y"}]}]
        for order in (cfgs, cfgs[::-1], cfgs * 3, [], cfgs[:1]):
            for content in (order, {"configurations": order}, {"configurations": order, "meta_info": {"é": [1]}}, {"meta_info": None, "configurations": order, "more": 1}):
                path = os.path.join(c.tmp(), "a.json")
                with open(path, "w", encoding="utf-8") as f:
                    json.dump(content, f)
                r = DistributionRun(None, json_file_name=path)
                c.trace()
                c.true(r.cfgs == order, "configurations read")
                back = os.path.join(c.tmp(), "b.json")
                r.write_configs_to_json(back)
                got, m = split(read(back))
                c.true(got == order and [list(x) for x in got] == [list(x) for x in order], "configurations written")
                c.true(m == (content.get("meta_info") if isinstance(content, dict) else None), f"meta information {m}")
    else:
        # with a repeatable generator the chunks are consecutive parts of the whole sample
        d = _ConfigDistro(DISTRO, {"lm": 12}, {"method": "gaussian"})

        def whole(n, **kw):
            np.random.seed(5)
            return d.make_config_lists(n, **kw)

        for n in range(1, 9):
            a, b = whole(n), whole(n)
            if plain(a) != plain(b):
                return
            for size in range(1, n + 1):
                out = whole(n, max_chunk_size=size)
                lists = out if isinstance(out[0], list) else [out]
                got = [{k: v for k, v in y.items() if k != "Index"} for x in lists for y in x]
                c.trace()
                c.true(plain(got) == plain([{k: v for k, v in y.items() if k != "Index"} for y in a]), f"{n} values in chunks of {size}")
