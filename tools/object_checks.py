"""Image objects (C05) and the memory pool (C06): TLC explores the models and prints every transition as a script; scripts and random
histories run on the real classes, and TLC judges the recorded histories."""
import os

from trace_checks import *


def build_objdrv():
    return build("objdrv", "objdrv.cpp", [])


def build_allocdrv():
    return build("allocdrv", ["allocdrv.cpp", "allocapi.cpp"], [])


def build_allocconc():
    return build("allocconc", ["allocdrv.cpp", "allocapi.cpp", "vsched.cpp"], [], asan=False, harness_opt="-O1", flags=["-DVSCHED"],
                 per_source={"allocapi.cpp": ["-fsanitize=thread"]}, libs=("-rdynamic", "-lpthread", "-ldl"))


def describe_object(tr, line, reasons):
    e = tr[line - 1]
    h = since_begin(tr, line)
    short = [("%s %s %s %s" % (x["op"], x["s"], x["t"], x["a"])) for x in h if x["e"] == "op"]
    return "%s: %s %s %s %s of image objects, after %d operations" % (",".join(reasons), e.get("op", e["e"]), e.get("s"), e.get("t"), e.get("a"), len(short) - 1), {"operations": short, "event": e}


def describe_pool(tr, line, reasons):
    e = tr[line - 1]
    return "%s: %s" % (",".join(reasons), {k: v for k, v in e.items()}), {"events": since_begin(tr, line, 200)}


def count_object(tr):
    keys, geo = set(), {}
    for e in tr:
        if e["e"] == "begin":
            geo = {}
        elif e["e"] == "op":
            keys.add((e["op"], tuple(e["a"]) if e["op"] not in ("fill", "set") else (), geo.get(e["s"]), geo.get(e["t"]), e["x"], e["r"]))
            for m in e["st"]:
                geo[m["id"]] = (m["live"], m["ty"], m["w"], m["h"], m["cc"], m["al"])
    return {"calls": sum(1 for e in tr if e["e"] == "op"), "keys": keys, "sample": next(({k: v for k, v in e.items() if k != "dat"} for e in tr if e["e"] == "op"), None)}


def count_pool(tr):
    keys, size, live = set(), 0, {}
    n = 0
    for e in tr:
        if e["e"] in ("alloc", "free", "resret"):
            n += 1
        if e["e"] == "resret" and e["x"] == 0:
            size = e["n"]
        elif e["e"] == "alloc":
            keys.add((size, e["len"], e["es"], tuple(sorted(live.values()))))
            if e["pool"]:
                live[e["id"]] = (e["off"], e["len"])
        elif e["e"] == "free":
            live.pop(e["id"], None)
        elif e["e"] == "begin":
            size, live = 0, {}
    return {"calls": n, "keys": keys, "sample": next((e for e in tr if e["e"] == "alloc"), None)}


def check(prop, tier, seed):
    rep = Report(prop, tier, seed, "model_checking")
    quick = tier == "quick"
    with Scratch() as d:
        module = "ImageObjectModel" if prop == "C05" else "AllocatorModel"
        cfg = os.path.join(d, "model.cfg")
        text = open(os.path.join(SPECS, module + ".cfg")).read().replace("Printing = FALSE", "Printing = TRUE")
        if prop == "C06" and not quick:
            text = text.replace("{0, 1, 4, 5, 6, 7, 8, 11}", "{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16}").replace("{1, 2, 3, 4, 5, 8, 12}", "{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16}")
        with open(cfg, "w") as f:
            f.write(text)
        scripts = model(rep, module, cfg, timeout=600, workers=8, prints="SCRIPT")
        if not scripts:
            raise CheckError("the model prints no scripts")
        rep.cov["transitions_of_the_model"] = len(scripts)
        path = os.path.join(d, "scripts")
        with open(path, "w") as f:
            f.write("\n".join(sorted(scripts)) + "\n")
        jobs = []
        if prop == "C05":
            exe = build_objdrv()
            common = {"exe": exe, "module": "ImageObjectTrace", "describe": describe_object, "count": count_object, "bulky": ("dat", "st"), "context": 20}
            n = 8 if quick else 64
            for j in range(n):
                jobs.append({**common, "args": ["--seed", str(seed * 1009 + j), "--histories", str(400 if quick else 1000)]})
            part = 128 if quick else 40
            for j in range(8 if quick else part):
                jobs.append({**common, "args": ["--seed", str(seed * 37 + j), "--scripts", path, "--part", str(part)]})
        else:
            exe, conc = build_allocdrv(), build_allocconc()
            common = {"module": "AllocatorTrace", "describe": describe_pool, "count": count_pool, "context": 60}
            for j in range(8 if quick else 64):
                jobs.append({**common, "exe": exe, "args": ["--seed", str(seed * 1009 + j), "--histories", str(300 if quick else 600)]})
            part = max(1, len(scripts) // (1000 if quick else 1500))
            for j in range(4 if quick else part):
                jobs.append({**common, "exe": exe, "args": ["--seed", str(seed * 37 + j), "--scripts", path, "--part", str(part)]})
            for j in range(4 if quick else 32):
                jobs.append({**common, "exe": conc, "args": ["--seed", str(seed * 811 + j), "--histories", str(3000 if quick else 6000)]})
        results = parallel(sequential_shard, jobs)
    keys = set()
    for r in results:
        rep.add("histories", r["stats"].get("histories", 0))
        if r["trace_info"]:
            rep.add("evaluations", r["trace_info"]["calls"])
            keys |= r["trace_info"]["keys"]
            if r["trace_info"]["sample"]:
                rep.sample(r["trace_info"]["sample"])
    rep.cov["distinct_nontrivial"] = len(keys)
    rep.cov["rule"] = ("an operation counts once for each combination of operation, arguments and geometry of the images it uses" if prop == "C05" else
                       "a request counts once for each combination of reserved size, length, element size and blocks in use")
    rep.assumptions = ["histories of the real code: a sample of the model's transitions (thorough: all of them) and random longer ones",
                       "AddressSanitizer sees accesses outside of allocated memory and double release"]
    report_shards(rep, results)
    return rep
