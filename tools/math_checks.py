"""C22 transforms, C23 light correction, C25 Fourier transform, C26 geometry: models and recorded calls of the real code."""
import collections

from trace_checks import *

# property -> mode of the driver, trace module, model, faults of the model, shards and events (quick, thorough)
KINDS = {
    "C22": ("transforms", "TransformsTrace", "TransformsModel", ("Sign", "HalfOfWidth", "Strict", "LastDirection"), (16, 800), (160, 1500)),
    "C23": ("light", "LightTrace", "LightModel", ("ByMinimum", "SizeFirst", "NoBound"), (16, 900), (160, 2000)),
    "C25": ("fourier", "FourierTrace", "FourierModel", ("BothDirect", "InPlace"), (16, 250), (160, 600)),
    "C26": ("geometry", "GeometryTrace", "GeometryModel", ("TermsStay", "ColumnsStay"), (16, 6000), (128, 15000)),
}


def build_mathdrv():
    return build("mathdrv", "mathdrv.cpp", ["fft.cpp", "math/fft_base.cpp", "math/haar_transform.cpp", "math/hough_transform.cpp", "math/math_base.cpp", "tool/light_correction.cpp", "filtering.cpp", "image_function.cpp", "image_function_helper.cpp",
                                            "thirdparty/kissfft/kiss_fft.c", "thirdparty/kissfft/kiss_fftnd.c"])


def describe(tr, line, reasons):
    e = tr[line - 1]
    detail = {"event": e}
    if e["e"] in ("correct", "find", "analyse"):
        detail["analysed"] = [x for x in since_begin(tr, line) if x["e"] == "analyse"][-3:]
    if "o" in e or "x" in e and "a" in e:
        detail["history"] = since_begin(tr, line, 40)
    return "%s: %s" % (e["e"], ",".join(reasons)), detail


def count(tr):
    keys, kinds, sample = set(), collections.Counter(), None
    for e in tr:
        if e["e"] in ("begin", "start", "end"):
            continue
        kinds[e["e"] + (" (refused)" if e.get("t") else "")] += 1
        if not e.get("t") and e["e"] not in ("resize", "copy", "move", "executor", "close", "degrees"):
            keys.add(hash(json.dumps(e, sort_keys=True)))
            if sample is None and e["e"] in ("hough", "correct", "look", "pair"):
                sample = e
    return {"calls": sum(kinds.values()), "keys": keys, "kinds": kinds, "sample": sample}


def check(prop, tier, seed):
    rep = Report(prop, tier, seed, "model_checking")
    quick = tier == "quick"
    mode, trace, module, faults, q, th = KINDS[prop]
    with Scratch() as d:
        text = open(os.path.join(SPECS, module + ".cfg")).read()

        def cfg(name, *changes):
            path = os.path.join(d, name + ".cfg")
            t = text
            for old, new in changes:
                t = t.replace(old, new)
            with open(path, "w") as f:
                f.write(t)
            return path
        model(rep, module, cfg("model"), workers=8)
        if not quick:
            if prop == "C22":
                model(rep, module, cfg("more", ("Values = {0, 1, 3}", "Values = {0, 2}"), ("Places = {0, 1, 3}", "Places = {0, 1, 2, 4}")), workers=8, timeout=2000)
            if prop == "C25":
                model(rep, module, cfg("more", ("AllSizes", "MoreSizes"), ("Steps = 3", "Steps = 2"), ("Full = TRUE", "Full = FALSE")), workers=8, timeout=2000)
                t = tlc(module + ".tla", cfg("dimensions", ("AllSizes", "MoreSizes"), ("Steps = 3", "Steps = 2"), ("Full = TRUE", "Full = FALSE"), ('"none"', '"Dimensions"')), 600, workers=8)
                if "is violated" not in t.out:
                    raise CheckError("the modelled defect Dimensions is not found")
            for f in faults:
                t = tlc(module + ".tla", cfg(f, ('"none"', '"%s"' % f)), 600, workers=8)
                if "is violated" not in t.out:
                    raise CheckError("the modelled defect %s is not found" % f)
        exe = build_mathdrv()
        shards, events = q if quick else th
        jobs = [{"exe": exe, "module": trace, "describe": describe, "count": count, "context": 6, "timeout": 220,
                 "args": ["--mode", mode, "--seed", str(seed * 1009 + j + sum(map(ord, prop)) * 77), "--events", str(events)]} for j in range(shards)]
        results = parallel(sequential_shard, jobs)
    keys, kinds = set(), collections.Counter()
    for r in results:
        if r["trace_info"]:
            i = r["trace_info"]
            rep.add("evaluations", i["calls"])
            keys |= i["keys"]
            kinds += i["kinds"]
            if i["sample"]:
                rep.sample(i["sample"])
    rep.cov["distinct_nontrivial"] = len(keys)
    rep.cov["calls"] = dict(kinds)
    rep.cov["rule"] = "different calls which were not refused"
    rep.assumptions = {
        "C22": ["values are integers; results are compared with a tolerance of 0.003; sines and cosines of the directions come from the C library", "up to 8 x 8 matrices and 14 points"],
        "C23": ["images of up to 11 x 8 pixels; a corrected value may be either neighbour if it is within 0.02 of the middle between two"],
        "C25": ["sizes up to 7 x 8 and real pictures; spectra are compared where the factors are 1, -1, i and -i, all others through products and transforms back"],
        "C26": ["coordinates are integers up to some 60; directions are rational"],
    }[prop]
    report_shards(rep, results)
    return rep
