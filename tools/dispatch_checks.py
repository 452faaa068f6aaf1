"""C15: dispatch of generic calls by image type (specs/Dispatch.tla, DispatchModel.tla, DispatchTrace.tla)."""
import collections
import os

from image_checks import build_imgdrv
from trace_checks import *

FAULTS = {"ForceGivesNothing", "NeverReplaces", "AlwaysReplaces", "OnePairPerSource", "IgnoresSwitch", "RunsForeign", "ConvertsBackLate"}


def describe(tr, line, reasons):
    e = tr[line - 1]
    first = max((i for i in range(line) if tr[i]["e"] == "reset"), default=0)
    history = [{k: v for k, v in x.items() if k in ("e", "ty", "g", "force", "fs", "a", "b", "on", "t")} for x in tr[first:line] if x["e"] in ("register", "converter", "enable")]
    if e["e"] == "call":
        what = "%s, form %d, inputs of types %s, outputs of types %s: %s" % (e["op"], e["f"], e["ti"], e["to"], ",".join(reasons))
    else:
        what = "%s of the registry: %s" % (e["e"], ",".join(reasons))
    return what, {"event": e, "registrations": history[-40:]}


def count(tr):
    keys, calls, sample, kinds = set(), 0, None, collections.Counter()
    for e in tr:
        if e["e"] == "call":
            calls += 1
            keys.add((e["op"], e["f"], e["t"], tuple(e["ti"]), tuple(e["to"]), tuple(r["ty"] for r in e["run"]), len(e["conv"])))
            kinds["refused" if e["t"] else "converted" if e["conv"] else "native"] += 1
            if sample is None and e["conv"] and e["t"] == 0:
                sample = {k: e[k] for k in ("op", "f", "ti", "to", "ta", "run", "conv", "w", "h")}
    return {"calls": calls, "keys": keys, "sample": sample, "kinds": kinds, "histories": sum(e["e"] == "reset" for e in tr)}


def check(prop, tier, seed):
    rep = Report(prop, tier, seed, "model_checking")
    quick = tier == "quick"
    with Scratch() as d:
        text = open(os.path.join(SPECS, "DispatchModel.cfg")).read()

        def cfg(name, old, new):
            path = os.path.join(d, name + ".cfg")
            with open(path, "w") as f:
                f.write(text.replace(old, new))
            return path
        t = tlc("DispatchModel.tla", cfg("scenarios", "Printing = FALSE", "Printing = TRUE"), 300, workers=8)
        scripts = sorted(set(re.findall(r'"SCENARIO ([^"]*)"', t.out)))
        if not t.ok or len(scripts) < 1000:
            raise CheckError("the model prints no scenarios: %s" % t.tail())
        rep.add("states", t.distinct)
        rep.add("transitions", t.generated)
        model(rep, "DispatchModel", cfg("absent", "BuiltIn = TRUE", "BuiltIn = FALSE"), workers=8)
        if not quick:
            for f in sorted(FAULTS):
                t = tlc("DispatchModel.tla", cfg(f, '"none"', '"%s"' % f), 300, workers=8)
                if "is violated" not in t.out:
                    raise CheckError("the modelled defect %s is not found" % f)
        rep.cov["registries_of_the_model"] = len(scripts)
        exe = build_imgdrv()
        part = 8 if quick else 1
        chosen = scripts[seed % part::part]
        size = 100 if quick else 200
        jobs = []
        common = {"exe": exe, "module": "DispatchTrace", "describe": describe, "count": count, "bulky": ("d", "ch", "im"), "context": 30, "timeout": 100 if quick else 250}
        for n, j in enumerate(range(0, len(chosen), size)):
            path = os.path.join(d, "scenarios.%d" % n)
            with open(path, "w") as f:
                f.write("\n".join(chosen[j:j + size]) + "\n")
            jobs.append({**common, "args": ["--variants", "disp", "--invalid", "2", "--maxw", "4", "--maxh", "3", "--seed", str(seed * 131 + n), "--script", path]})
        for j in range(12 if quick else 96):
            jobs.append({**common, "args": ["--variants", "disp", "--invalid", "6", "--maxw", "7", "--maxh", "5", "--seed", str(seed * 1009 + j), "--episodes", "80", "--events", "40"]})
        results = parallel(sequential_shard, jobs)
    keys, kinds = set(), collections.Counter()
    for r in results:
        if r["trace_info"]:
            i = r["trace_info"]
            rep.add("evaluations", i["calls"])
            rep.add("histories", i["histories"])
            keys |= i["keys"]
            kinds += i["kinds"]
            if i["sample"]:
                rep.sample(i["sample"])
    rep.cov["distinct_nontrivial"] = len(keys)
    rep.cov["calls"] = dict(kinds)
    rep.cov["rule"] = "calls count once for each combination of function, form, outcome, types of the images, implementation which ran and number of conversions"
    rep.assumptions = ["plain images always have the built-in functions, so calls of functions no type has are only explored in the model",
                       "each history of registrations runs in a process of its own; histories are %s of the model's states and random ones" % ("an eighth" if quick else "all")]
    report_shards(rep, results)
    return rep
