"""C19: edge detection (specs/Edge.tla, EdgeModel.tla, EdgeTrace.tla)."""
import collections

from trace_checks import *

FAULTS = {"StopsEarly": "0, 3, 5, 9", "CrossesSteeper": "0, 3, 5, 9", "EitherOffset": "0, 3, 5, 9", "ReachesBeyond": "0, 3, 5, 9", "OnlyNear": "0, 1, 5, 6"}
ARGS = ("dir", "grad", "kind", "group", "skip", "left", "right", "contrast")


def build_edgedrv():
    return build("edgedrv", "edgedrv.cpp", ["edge_detection.cpp", "image_function_helper.cpp", "image_function.cpp", "thread_pool.cpp"])


def rows(e):
    return [e["d"][i:i + e["iw"]] for i in range(0, len(e["d"]), e["iw"])]


def describe(tr, line, reasons):
    e = tr[line - 1]
    return "edges scanned %s, %s, %s: %s" % (e.get("dir"), e.get("grad"), e.get("kind"), ",".join(reasons)), {"image": rows(e), "region": [e[k] for k in "xywh"], "event": {k: v for k, v in e.items() if k != "d"}}


def count(tr):
    keys, calls, kinds, sample = set(), 0, collections.Counter(), None
    for e in tr:
        if e["e"] == "find":
            calls += 1
            n = len(e["pos"]) + len(e["neg"])
            kinds["refused" if e["t"] else "no points" if n == 0 else "one point" if n == 1 else "several points"] += 1
            if n:
                keys.add((tuple(e[k] for k in ARGS), e["x"], e["y"], e["w"], e["h"], hash(tuple(e["d"]))))
            if sample is None and n > 2:
                sample = {"image": rows(e), **{k: e[k] for k in ARGS + ("x", "y", "w", "h", "pos", "neg")}}
    return {"calls": calls, "keys": keys, "kinds": kinds, "sample": sample}


def check(prop, tier, seed):
    rep = Report(prop, tier, seed, "model_checking")
    quick = tier == "quick"
    with Scratch() as d:
        text = open(os.path.join(SPECS, "EdgeModel.cfg")).read()

        def cfg(name, *changes):
            path = os.path.join(d, name + ".cfg")
            t = text
            for old, new in changes:
                t = t.replace(old, new)
            with open(path, "w") as f:
                f.write(t)
            return path
        if quick:
            model(rep, "EdgeModel", cfg("small", ("{0, 3, 5, 9}", "{0, 3, 9}")), workers=8)
        else:
            for v, n in (("0, 3, 5, 9", 6), ("0, 1, 5, 6", 6), ("0, 2, 9", 8), ("0, 1, 2, 6", 7)):
                model(rep, "EdgeModel", cfg("m%d" % n, ("0, 3, 5, 9", v), ("Length = 6", "Length = %d" % n)), workers=8, timeout=1500)
            for f, v in sorted(FAULTS.items()):
                t = tlc("EdgeModel.tla", cfg(f, ('"none"', '"%s"' % f), ("0, 3, 5, 9", v)), 600, workers=8)
                if "is violated" not in t.out:
                    raise CheckError("the modelled defect %s is not found" % f)
        exe = build_edgedrv()
        jobs = [{"exe": exe, "module": "EdgeTrace", "describe": describe, "count": count, "bulky": ("d",), "context": 6, "timeout": 220,
                 "args": ["--seed", str(seed * 1009 + j), "--histories", str(700 if quick else 1500)]} for j in range(16 if quick else 160)]
        results = parallel(sequential_shard, jobs)
    keys, kinds = set(), collections.Counter()
    for r in results:
        if r["trace_info"]:
            i = r["trace_info"]
            rep.add("evaluations", i["calls"])
            keys |= i["keys"]
            kinds += i["kinds"]
            if i["sample"]:
                rep.sample(i["sample"])
    rep.cov["distinct_nontrivial"] = len(keys)
    rep.cov["searches"] = dict(kinds)
    rep.cov["rule"] = "searches which find points count once for each image, region and parameters"
    rep.assumptions = ["profiles of the real code are up to 24 pixels long, up to 6 lines; the order of the points is open",
                       "the contrast of an edge is taken between the feet of the rise as the library defines them"]
    report_shards(rep, results)
    return rep
