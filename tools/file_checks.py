"""C20 and C21: image files (specs/Bitmap.tla, BitmapModel.tla, BitmapTrace.tla)."""
import collections

from trace_checks import *

FAULTS = ("Wraps", "BigMinimum", "NoOffset", "NoLength", "SkipsRow", "Upwards", "AlwaysFlips", "FlipsTwice")


def build_filedrv():
    return build("filedrv", "filedrv.cpp", ["file/bmp_image.cpp", "file/file_image.cpp", "file/jpeg_image.cpp", "file/png_image.cpp", "image_function.cpp", "image_function_helper.cpp", "thread_pool.cpp"],
                 flags=["-DPENGUINV_ENABLED_PNG_SUPPORT", "-DPENGUINV_ENABLED_JPEG_SUPPORT"], libs=("-lpng", "-ljpeg", "-lpthread"))


def brief(e):
    r = dict(e)
    if "f" in r and len(r["f"]) > 200:
        r["f"] = {"length": len(r["f"]), "first": r["f"][:54], "last": r["f"][-64:]}
    return r


def describe(tr, line, reasons):
    e = tr[line - 1]
    before = next((brief(x) for x in reversed(tr[:line - 1]) if x["e"] in ("put", "save")), None) if e["e"] == "load" else None
    what = "%s of %s: %s" % (e["e"], e.get("fmt", "bytes"), ",".join(reasons))
    if e["e"] == "load" and before and before["e"] == "put" and e["fmt"] == "bmp":
        what = "load of a given bitmap: " + ",".join(reasons)
    return what, {"event": brief(e), "file": before}


def count(tr):
    keys, calls, kinds, sample, f = set(), 0, collections.Counter(), None, ()
    for e in tr:
        if e["e"] == "put":
            f = tuple(e["f"])
        elif e["e"] == "save":
            calls += 1
            f = tuple(e["f"])
            kinds["save " + e["fmt"]] += 1
            keys.add((e["fmt"], e["form"], e["target"], e["im"]["w"], e["im"]["h"], e["im"]["cc"], e["x"], e["y"], e["w"], e["h"], e["t"]))
        elif e["e"] == "load":
            calls += 1
            kinds["load %s%s" % (e["fmt"], " (refused)" if e["t"] or e["w"] == 0 else "")] += 1
            keys.add((e["fmt"], e.get("rw"), e.get("rh"), hash(f)))
            if sample is None and e["fmt"] == "bmp" and e["w"]:
                sample = {"file": {"length": len(f), "headers": list(f[:54])}, "w": e["w"], "h": e["h"], "cc": e["cc"]}
        elif e["e"] in ("swap", "big"):
            calls += 1
            kinds[e["e"]] += 1
    return {"calls": calls, "keys": keys, "kinds": kinds, "sample": sample}


def check(prop, tier, seed):
    rep = Report(prop, tier, seed, "model_checking")
    quick = tier == "quick"
    with Scratch() as d:
        text = open(os.path.join(SPECS, "BitmapModel.cfg")).read()

        def cfg(name, *changes):
            path = os.path.join(d, name + ".cfg")
            t = text
            for old, new in changes:
                t = t.replace(old, new)
            with open(path, "w") as f:
                f.write(t)
            return path
        t = tlc("BitmapModel.tla", cfg("scenarios", ("Printing = FALSE", "Printing = TRUE")), 600, workers=8)
        scripts = sorted(set(re.findall(r'"SCENARIO ([^"]*)"', t.out)))
        rep.add("states", t.distinct)
        rep.add("transitions", t.generated)
        if not t.ok or len(scripts) < 1000:
            raise CheckError("the model prints no scenarios: %s" % t.tail())
        rep.cov["files_of_the_model"] = len(scripts)
        if not quick:
            model(rep, "BitmapModel", cfg("bigger", ("Most = 2", "Most = 5")), workers=8, timeout=1500)
            for f in FAULTS:
                t = tlc("BitmapModel.tla", cfg(f, ('"none"', '"%s"' % f)), 600, workers=8)
                if "is violated" not in t.out:
                    raise CheckError("the modelled defect %s is not found" % f)
        exe = build_filedrv()
        jobs = []
        common = {"exe": exe, "module": "BitmapTrace", "describe": describe, "count": count, "bulky": ("f", "rows", "im"), "context": 6, "timeout": 220}
        if prop == "C20":
            for j in range(16 if quick else 128):
                jobs.append({**common, "args": ["--seed", str(seed * 1009 + j), "--histories", str(250 if quick else 600)]})
            for j in range(2 if quick else 16):
                jobs.append({**common, "args": ["--seed", str(seed * 37 + j), "--big", "3"]})
        else:
            for j in range(12 if quick else 96):
                jobs.append({**common, "args": ["--seed", str(seed * 733 + j), "--damaged", str(500 if quick else 1500)]})
            chosen = scripts
            size = 400
            for n, j in enumerate(range(0, len(chosen), size)):
                path = os.path.join(d, "scenarios.%d" % n)
                with open(path, "w") as f:
                    f.write("\n".join(chosen[j:j + size]) + "\n")
                jobs.append({**common, "args": ["--seed", str(seed * 131 + n), "--script", path]})
        results = parallel(sequential_shard, jobs)
    keys, kinds = set(), collections.Counter()
    for r in results:
        if r["trace_info"]:
            i = r["trace_info"]
            rep.add("evaluations", i["calls"])
            keys |= i["keys"]
            kinds += i["kinds"]
            if i["sample"]:
                rep.sample(i["sample"])
    rep.cov["distinct_nontrivial"] = len(keys)
    rep.cov["calls"] = dict(kinds)
    rep.cov["rule"] = "calls count once for each format, geometry and contents of the file"
    rep.assumptions = ["images of up to 17 x 13 pixels, a few of some megabytes", "compressed bitmaps may be refused or taken as they are; palettes of other sizes than 256 colours of four bytes are ignored",
                       "JPEG files are compared with a tolerance of 4 on grey images and on regions of one colour; broken PNG and JPEG files are not tried"]
    report_shards(rep, results)
    return rep
