"""C27: PNG and JPEG files (specs/Codec.tla, CodecModel.tla, CodecTrace.tla)."""
import collections

from trace_checks import *

FAULTS = ("NoStrip", "NoPalette", "NoExpand", "NoFiller", "NoColour", "NoSwap", "NoJump", "NoCheck", "LeakFile", "LeakRows", "LeakStruct")


def build_codecdrv():
    return build("codecdrv", "codecdrv.cpp", ["file/bmp_image.cpp", "file/file_image.cpp", "file/jpeg_image.cpp", "file/png_image.cpp", "image_function.cpp", "image_function_helper.cpp", "thread_pool.cpp"],
                 flags=["-DPENGUINV_ENABLED_PNG_SUPPORT", "-DPENGUINV_ENABLED_JPEG_SUPPORT"], libs=("-lpng", "-ljpeg", "-lz", "-lpthread"))


def brief(e):
    r = dict(e)
    for k in ("ref", "out", "im"):
        if k in r:
            r[k] = {x: (y if x not in ("rows", "palette") or len(str(y)) < 600 else "...") for x, y in r[k].items()}
    return r


def describe(tr, line, reasons):
    e = tr[line - 1]
    what = "%s of %s %s: %s" % (e["e"], e.get("fmt", "quality"), e.get("kind", e.get("target", "")), ",".join(reasons))
    return what, {"event": brief(e), "finding": "%s-%s-order" % (e["e"], e["fmt"]) if reasons == ["order"] else None}


def count(tr):
    keys, kinds, sample = set(), collections.Counter(), None
    for e in tr:
        if e["e"] == "load":
            kinds["load %s, %s" % (e["fmt"], e["state"])] += 1
            keys.add((e["fmt"], e["kind"], e["ref"]["w"], e["ref"]["h"], e["size"], e["state"], hash(str(e["ref"]["rows"]))))
            if sample is None and e["state"] == "whole" and len(str(e["ref"]["rows"])) < 200:
                sample = {k: e[k] for k in ("fmt", "kind", "how", "ref", "out")}
        elif e["e"] == "save":
            kinds["save %s, %s" % (e["fmt"], e["target"])] += 1
            keys.add((e["fmt"], e["form"], e["target"], e["q"], e["im"]["w"], e["im"]["h"], e["im"]["cc"], e["x"], e["y"], e["pw"], e["ph"]))
        elif e["e"] == "quality":
            kinds["quality"] += 1
            keys.add(("quality", e["q"], e["before"]))
    return {"calls": sum(kinds.values()), "keys": keys, "kinds": kinds, "sample": sample}


def check(prop, tier, seed):
    rep = Report(prop, tier, seed, "model_checking")
    quick = tier == "quick"
    with Scratch() as d:
        text = open(os.path.join(SPECS, "CodecModel.cfg")).read()

        def cfg(name, *changes):
            path = os.path.join(d, name + ".cfg")
            t = text
            for old, new in changes:
                t = t.replace(old, new)
            with open(path, "w") as f:
                f.write(t)
            return path
        t = tlc("CodecModel.tla", cfg("scenarios", ("Printing = FALSE", "Printing = TRUE")), 600, workers=4)
        scripts = sorted(set(re.findall(r'"SCENARIO ([^"]*)"', t.out)))
        rep.add("states", t.distinct)
        rep.add("transitions", t.generated)
        if not t.ok or len(scripts) < 700:
            raise CheckError("the model prints no scenarios: %s" % t.tail())
        rep.cov["scenarios_of_the_model"] = len(scripts)
        if not quick:
            for f in FAULTS:
                t = tlc("CodecModel.tla", cfg(f, ('"none"', '"%s"' % f)), 600, workers=4)
                if "is violated" not in t.out:
                    raise CheckError("the modelled defect %s is not found" % f)
        exe = build_codecdrv()
        common = {"exe": exe, "module": "CodecTrace", "describe": describe, "count": count, "bulky": ("ref", "out", "im"), "context": 3, "timeout": 220, "most": 100000}
        jobs = []
        for j in range(4 if quick else 32):
            jobs.append({**common, "args": ["--seed", str(seed * 1013 + j), "--valid", str(500 if quick else 800)]})
            jobs.append({**common, "args": ["--seed", str(seed * 613 + j), "--damaged", str(500 if quick else 1200)]})
            jobs.append({**common, "args": ["--seed", str(seed * 413 + j), "--saves", str(500 if quick else 800)]})
        for n in range(4 if quick else 40):
            path = os.path.join(d, "scenarios.%d" % n)
            with open(path, "w") as f:
                f.write("\n".join(scripts[n % 4::4]) + "\n")
            jobs.append({**common, "args": ["--seed", str(seed * 131 + n), "--script", path]})
        results = parallel(sequential_shard, jobs)
    keys, kinds = set(), collections.Counter()
    for r in results:
        if r["trace_info"]:
            i = r["trace_info"]
            rep.add("evaluations", i["calls"])
            keys |= i["keys"]
            kinds += i["kinds"]
            if i["sample"]:
                rep.sample(i["sample"])
        # what is listed as known is told and not reported
        r["viol"] = [(w, x) for w, x in r["viol"] if not (x.get("finding") and rep.known_finding(x["finding"]))]
    rep.cov["distinct_nontrivial"] = len(keys)
    rep.cov["calls"] = dict(kinds)
    rep.cov["rule"] = "calls count once for each kind, size and contents of the file or each geometry, target and quality"
    rep.assumptions = ["files of up to 25 x 19 pixels; contents of files are told by a decoder of the driver's own on top of libpng and libjpeg",
                       "JPEG pictures are compared with a tolerance of 4; qualities under 50 only by the quantisation step and the size",
                       "a file in which a decoder finds something wrong but gets the picture may be read or refused"]
    report_shards(rep, results)
    return rep
