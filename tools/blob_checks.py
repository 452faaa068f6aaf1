"""C17 and C18: blob detection (specs/Blob.tla, BlobModel.tla, BlobTrace.tla)."""
import collections

from trace_checks import *


def build_blobdrv():
    return build("blobdrv", "blobdrv.cpp", ["blob_detection.cpp", "image_function_helper.cpp", "image_function.cpp", "thread_pool.cpp"], libs=("-lpthread",))


def picture(e):
    w = e["iw"]
    return ["".join("#" if v >= e["th"] else "." for v in e["d"][i:i + w]) for i in range(0, len(e["d"]), w)]


def describe(tr, line, reasons):
    e = tr[line - 1]
    found = next((x for x in reversed(tr[:line]) if x["e"] == "find"), None)
    detail = {"event": {k: v for k, v in e.items() if k not in ("d",)}}
    if found:
        detail["picture"] = picture(found)
        detail["region"] = [found[k] for k in "xywh"]
        detail["limits"] = [found["lo"], found["hi"]]
        if e is not found:
            detail["blobs"] = [list(zip(b["px"], b["py"])) for b in found["res"]][:20]
    return "%s of blobs: %s" % (e["e"] + (" " + e["m"] if "m" in e else ""), ",".join(reasons)), detail


def count(tr):
    keys, calls, kinds, sample, cur = set(), 0, collections.Counter(), None, ()
    for e in tr:
        if e["e"] == "find":
            calls += 1
            cur = (e["x"], e["y"], e["w"], e["h"], tuple(v >= e["th"] for v in e["d"]))
            keys.add(cur + (tuple(e["lo"]), tuple(e["hi"])))
            kinds["refused" if e["t"] else "%d blobs" % min(len(e["res"]), 5)] += 1
            if sample is None and len(e["res"]) > 2:
                sample = {"picture": picture(e), "region": [e[k] for k in "xywh"], "limits": [e["lo"], e["hi"]], "blobs": [len(b["px"]) for b in e["res"]]}
        elif e["e"] in ("measure", "sort", "best"):
            calls += 1
            keys.add((e["e"], e["m"], e.get("i"), hash(cur)))
    return {"calls": calls, "keys": keys, "kinds": kinds, "sample": sample}


FAULTS = {"FourNeighbours", "NoFrame", "EdgeOfFour", "MarksLate", "ContourFour", "ForgetsStart"}


def check(prop, tier, seed):
    rep = Report(prop, tier, seed, "model_checking")
    quick = tier == "quick"
    with Scratch() as d:
        text = open(os.path.join(SPECS, "BlobModel.cfg")).read()

        def cfg(name, *changes):
            path = os.path.join(d, name + ".cfg")
            t = text
            for old, new in changes:
                t = t.replace(old, new)
            with open(path, "w") as f:
                f.write(t)
            return path
        model(rep, "BlobModel", cfg("small"), workers=8)
        if not quick:
            for w, h in ((4, 3), (2, 5), (1, 6)):
                model(rep, "BlobModel", cfg("m%d%d" % (w, h), ("W = 3", "W = %d" % w), ("H = 3", "H = %d" % h)), workers=8, timeout=900)
            for f in sorted(FAULTS):
                t = tlc("BlobModel.tla", cfg(f, ('"none"', '"%s"' % f), ("W = 3", "W = 4")), 600, workers=8)
                if "is violated" not in t.out:
                    raise CheckError("the modelled defect %s is not found" % f)
        exe = build_blobdrv()
        jobs = []
        common = {"exe": exe, "module": "BlobTrace", "describe": describe, "count": count, "bulky": ("d", "res"), "context": 6, "timeout": 220}
        if prop == "C17":
            for j in range(16 if quick else 96):
                jobs.append({**common, "args": ["--seed", str(seed * 1009 + j), "--histories", str(250 if quick else 600)]})
            if quick:
                for j in range(8):
                    jobs.append({**common, "args": ["--w", "4", "--h", "4", "--from", str((seed * 8 + j) % 64), "--step", "64", "--count", "1024", "--seed", str(j + 1)]})
            else:
                for j in range(64):
                    jobs.append({**common, "args": ["--w", "4", "--h", "4", "--from", str(j), "--step", "64", "--count", "1024", "--seed", str(j + 1)]})
                for j in range(16):
                    jobs.append({**common, "args": ["--w", "5", "--h", "4", "--from", str(j * 63 + seed), "--step", "1024", "--count", "1024", "--seed", str(j + 1)]})
            jobs.append({**common, "args": ["--lines", "2", "--seed", str(seed)]})
            for j in range(4 if quick else 32):
                jobs.append({**common, "args": ["--thin", str(25 if quick else 60), "--seed", str(seed * 211 + j)]})
        else:
            for j in range(24 if quick else 160):
                jobs.append({**common, "args": ["--seed", str(seed * 733 + j), "--limited", str(300 if quick else 700)]})
            for j in range(4 if quick else 32):
                jobs.append({**common, "args": ["--thin", str(25 if quick else 60), "--seed", str(seed * 223 + j)]})
        results = parallel(sequential_shard, jobs)
    keys, kinds = set(), collections.Counter()
    for r in results:
        if r["trace_info"]:
            i = r["trace_info"]
            rep.add("evaluations", i["calls"])
            keys |= i["keys"]
            kinds += i["kinds"]
            if i["sample"]:
                rep.sample(i["sample"])
    rep.cov["distinct_nontrivial"] = len(keys)
    rep.cov["searches"] = dict(kinds)
    rep.cov["rule"] = "searches count once for each region content and limits, measurements, sortings and selections once for each kind, blob and content"
    rep.assumptions = ["regions are up to 13 x 11 pixels apart from long lines; circularity and elongation are compared to three thousandths",
                       "which of several longest chords gives the elongation, the order of blobs found and of pixels in a blob are open"]
    report_shards(rep, results)
    return rep
