"""Image function properties: recorded calls of the real functions are checked, call by call, by TLC against specs/ImageOps.tla."""
import glob
import json
import os

from vlib import *

PIXELWISE = "AbsoluteDifference,BitwiseAnd,BitwiseOr,BitwiseXor,Invert,Maximum,Minimum,Subtract,Threshold,Threshold2,LookupTable,GammaCorrection,Normalize,Fill"
STATISTICS = "Sum,Histogram,HistogramMask,ProjectionProfile,Accumulate,IsEqual,IsBinary,GetPixel,SetPixel,SetPixels,GetThreshold"
GEOMETRIC = "Copy,Flip,Transpose,Resize"
CONVERSIONS = "ConvertToGrayScale,ConvertToRgb,RgbToRgba,RgbaToRgb,RgbToBgr,ExtractChannel,ReplaceChannel,Split,Merge,ConvertTo16Bit,ConvertTo8Bit"
FILTERS = "BinaryDilate,BinaryErode,Median,Sobel,Prewitt"
TRANSFORMS = "Shift,Rotate,SetPixel"
HUGE = "Sum,ProjectionProfile"
CPU = "ref,cpu"
SIMD = "sse,avx,avx512,cpu"


def sources():
    src = os.path.join(REPO, "src")
    return sorted(os.path.relpath(f, src) for p in ("*.cpp", "penguinv/*.cpp", "math/*.cpp") for f in glob.glob(os.path.join(src, p))
                  if os.path.basename(f) != "fft.cpp")


def build_imgdrv():
    # gcc's AddressSanitizer does not keep the alignment 64-byte vectors need on the stack
    return build("imgdrv", "imgdrv.cpp", sources(), per_source={"image_function_simd.cpp": ["--param", "asan-stack=0"]})


def build_ocldrv():
    src = os.path.join(REPO, "src")
    cl = sorted(os.path.relpath(f, src) for f in glob.glob(os.path.join(src, "opencl/*.cpp")))
    return build("ocldrv", "imgdrv.cpp", sources() + cl, flags=["-DWITH_OPENCL", "-DCL_TARGET_OPENCL_VERSION=120", "-Wno-deprecated-declarations"],
                 per_source={"image_function_simd.cpp": ["--param", "asan-stack=0"]}, libs=("-lpthread", "-lOpenCL"))


# property -> list of (weight, driver arguments); "events" is added per shard
def groups(prop):
    g = {
        "C07": [(4, ["--variants", CPU, "--ops", PIXELWISE, "--invalid", "3"]),
                (2, ["--variants", SIMD + ",pool,pv", "--ops", PIXELWISE, "--invalid", "1", "--wide", "1"]),
                (2, ["--variants", "ref", "--ops", PIXELWISE, "--invalid", "0", "--wide", "1"]),
                (2, ["--variants", "ref,pv,pool," + SIMD, "--ops", PIXELWISE, "--tall", "1", "--events", "110"])],
        "C08": [(3, ["--variants", "ref", "--invalid", "2"]),
                (1, ["--variants", "avx,sse", "--invalid", "0", "--wide", "1", "--ops", "Threshold,Threshold2,Invert,AbsoluteDifference,Subtract"]),
                (1, ["--variants", "ref", "--invalid", "2", "--maxw", "4", "--maxh", "4"]),
                (3, ["--variants", SIMD, "--invalid", "2", "--wide", "1"]),
                (1, ["--variants", "pool,pv", "--invalid", "2"]),
                (2, ["--variants", "ref,pool", "--invalid", "1", "--tall", "1", "--events", "90"])],
        "C09": [(8, ["--variants", SIMD, "--invalid", "2", "--wide", "1"]),
                (2, ["--variants", SIMD, "--invalid", "2"]),
                (2, ["--variants", SIMD, "--ops", HUGE, "--invalid", "0", "--huge", "1", "--events", "80"]),
                (3, ["--variants", SIMD, "--tall", "1", "--events", "110"])],
        "C11": [(3, ["--variants", "ref", "--invalid", "70"]),
                (2, ["--variants", SIMD, "--invalid", "70", "--wide", "1"]),
                (2, ["--variants", "pool,pv", "--invalid", "70"]),
                (1, ["--variants", "ref,pool", "--invalid", "40", "--maxw", "3", "--maxh", "3"])],
        "C12": [(5, ["--variants", "ref,cpu,pv", "--ops", STATISTICS, "--invalid", "3"]),
                (3, ["--variants", "ref,pool," + SIMD, "--ops", STATISTICS, "--invalid", "1", "--wide", "1"]),
                (1, ["--variants", "ref,pool," + SIMD, "--ops", HUGE + ",Histogram,HistogramMask,IsEqual,Accumulate", "--invalid", "0", "--huge", "1", "--events", "80"]),
                (2, ["--variants", "ref,pool," + SIMD, "--ops", STATISTICS, "--tall", "1", "--events", "110"])],
        "C13": [(5, ["--variants", "ref,cpu,pv", "--ops", GEOMETRIC, "--invalid", "3"]),
                (3, ["--variants", "ref,pool," + SIMD, "--ops", GEOMETRIC, "--invalid", "1", "--wide", "1"]),
                (2, ["--variants", "ref,pool," + SIMD, "--ops", GEOMETRIC, "--tall", "1", "--events", "110"])],
        "C14": [(5, ["--variants", "ref,cpu,pv", "--ops", CONVERSIONS, "--invalid", "3"]),
                (3, ["--variants", "ref,pool," + SIMD, "--ops", CONVERSIONS, "--invalid", "1", "--wide", "1"]),
                (2, ["--variants", "ref,pool," + SIMD, "--ops", CONVERSIONS, "--tall", "1", "--events", "110"])],
        "C16": [(6, ["--variants", "ref,cpu", "--ops", FILTERS, "--invalid", "3"]),
                (2, ["--variants", "ref,cpu", "--ops", FILTERS, "--invalid", "1", "--maxw", "5", "--maxh", "5"]),
                (2, ["--variants", "ref", "--ops", FILTERS, "--tall", "1", "--events", "90"])],
        "C04": [(5, ["--variants", "pool", "--invalid", "3"]),
                (2, ["--variants", "pool", "--invalid", "1", "--wide", "1"]),
                (2, ["--variants", "pool", "--invalid", "5", "--conc", "4"]),
                (2, ["--variants", "pool", "--invalid", "0", "--maxw", "40", "--maxh", "40", "--repeat", "1500", "--events", "110"]),
                (2, ["--variants", "pool", "--ops", "IsEqual,Sum,Histogram,ProjectionProfile", "--invalid", "0", "--maxw", "40", "--maxh", "40", "--repeat", "2000", "--events", "110"]),
                (3, ["--variants", "pool", "--tall", "1", "--events", "90"])],
        "C24": [(5, ["--variants", "ref,cpu", "--ops", TRANSFORMS, "--invalid", "3"]),
                (2, ["--variants", "ref,cpu", "--ops", TRANSFORMS, "--invalid", "1", "--maxw", "6", "--maxh", "6"]),
                (2, ["--variants", "ref", "--ops", TRANSFORMS, "--tall", "1", "--events", "90"])],
        "C10": [(8, ["--variants", "ocl", "--invalid", "4"]),
                (1, ["--variants", "ocl", "--tall", "1", "--events", "100"])],
    }
    return g[prop]


REASONS = {"C08": {"outside", "other"}, "C11": {"accepted", "exception", "leak", "refused"}}
EVENTS = {"quick": {"default": 4000, "C04": 2500, "C16": 2500, "C24": 1600, "C10": 2500}, "thorough": {"default": 9000, "C16": 4500, "C24": 4500, "C10": 5000}}
ROUNDS = {"quick": {"default": 16, "C10": 8}, "thorough": {"default": 96, "C10": 64}}


def shards(prop, tier, seed):
    g = groups(prop)
    total = sum(w for w, _ in g)
    n = ROUNDS[tier].get(prop, ROUNDS[tier]["default"])
    events = EVENTS[tier].get(prop, EVENTS[tier]["default"])
    out = []
    for k, (w, args) in enumerate(g):
        for j in range(max(1, round(n * w / total))):
            out.append([*args, "--seed", str((seed * 1000003 + k * 1009 + j * 7919 + sum(map(ord, prop)) * 31) % (1 << 31)), *([] if "--events" in args else ["--events", str(events)])])
    return out


def describe(tr, line):
    """The call of a line of the trace with the geometry of its images."""
    store = {}
    for n, e in enumerate(tr, 1):
        if n == line:
            geo = {str(s): {k: store.get(s, {}).get(k) for k in ("w", "h", "cc", "al", "rs", "b")} for s in e.get("i", []) + e.get("o", [])}
            return {"event": {k: v for k, v in e.items() if k != "ch"}, "images_before": {s: store.get(int(s)) for s in geo}, "changes": e.get("ch")}, {
                s: "%sx%sx%s/%s" % (g["w"], g["h"], g["cc"], g["rs"]) for s, g in geo.items()}
        if e["e"] == "new":
            store[e["im"]["id"]] = e["im"]
        for x in e.get("ch", []) if e["e"] == "call" else []:
            store[x["id"]] = x
    return {}, {}


def read_trace(path):
    tr = []
    with open(path, errors="replace") as f:
        for x in f:
            try:
                tr.append(json.loads(x))
            except ValueError:
                break  # cut off by a crash
    return tr


def one_shard(exe, args, prop):
    """Runs the driver and TLC. Returns a dict with violations and counts."""
    timeout = 150 if os.environ.get("VERIF_TIER_USED") != "thorough" else 300
    res = {"args": args, "viol": [], "calls": 0, "distinct": set(), "states": 0, "ops": {}, "unavailable": ""}
    with Scratch() as d:
        path = os.path.join(d, "trace.ndjson")
        rc, out, _ = run([exe, *args, "--out", path], timeout, stop=HANG)
        if rc == "stopped":
            return res
        if rc == 2:
            raise CheckError("driver cannot run: " + out[-500:])
        tr = read_trace(path) if os.path.exists(path) else []
        if rc != 0:
            rc2, out2, _ = run([exe, *args, "--out", path + ".again"], timeout, stop=HANG)
            if rc2 == 0 and rc != "timeout":
                rc2, out2, _ = run([exe, *args, "--out", path + ".again"], timeout, stop=HANG)
            if rc2 == "stopped":
                return res
            if rc2 == "timeout":
                HANG.set()
            if rc2 == 0 and not ("pool" in " ".join(args) and rc in (-4, -6, -7, -8, -11, 99)):
                raise CheckError("driver ended with %s once and not again: %s" % (rc, summary_of(out)))
            opened = []
            for e in tr:
                if e["e"] == "begin":
                    opened.append(e)
                elif e["e"] == "call":
                    opened = [o for o in opened if not (o["op"] == e["op"] and o["i"] == e["i"] and o["o"] == e["o"] and o["w"] == e["w"] and o["h"] == e["h"])]
            kind = "never returns" if rc == "timeout" else "crashes"
            names = ", ".join(sorted({"%s (%s)" % (o["op"], o["v"]) for o in opened})) or "driver"
            res["viol"].append(("%s %s" % (names, kind), {"driver": args, "open_calls": opened, "report": summary_of(out, 20)}))
            with open(path, "w") as f:
                for e in tr:
                    f.write(json.dumps(e) + "\n")
        if not tr:
            return res
        t = tlc("ImageTrace.tla", "ImageTrace.cfg", 600, env={"TRACE": path}, heap="3g")
        parsed = parse_bad(t.out)
        if parsed is None and 0 < undefined_step(t) <= len(tr):
            e = tr[undefined_step(t) - 1]
            res["viol"].append(("%s (%s) gives what the specification has no meaning for" % (e.get("op", e["e"]), e.get("v")),
                                {"driver": args, "line": undefined_step(t), "step": json.dumps(e)[:2000], "report": t.tail()[-1500:]}))
            return res
        if parsed is None or parsed[0] != len(tr):
            raise CheckError("TLC did not read the whole trace of %s: %s" % (args, t.tail()))
        if rc == 0 and not (tr and tr[-1]["e"] == "end"):
            raise CheckError("trace is not complete")
        res["states"] = t.distinct
        want = REASONS.get(prop)
        for line, reasons in parsed[1]:
            hit = [r for r in reasons if want is None or r in want]
            e = tr[line - 1]
            if prop == "C11" and "refused" in hit and e.get("t") == 0:
                hit.remove("refused")
            if not hit:
                continue
            detail, geo = describe(tr, line)
            what = "%s (%s, form %s) on %s: %s" % (e.get("op", e["e"]), e.get("v"), e.get("f"), geo, ",".join(hit))
            detail["driver"] = args
            detail["line"] = line
            detail["reasons"] = hit
            res["viol"].append((what, detail))
        geo = {}
        for e in tr:
            if e["e"] == "new":
                geo[e["im"]["id"]] = (e["im"]["w"], e["im"]["h"], e["im"]["cc"])
            elif e["e"] == "call":
                res["calls"] += 1
                key = "%s/%s" % (e["op"], e["v"])
                res["ops"][key] = res["ops"].get(key, 0) + 1
                res["distinct"].add((e["op"], e["v"], e["f"], e["t"], tuple(e["ix"]), tuple(e["iy"]), tuple(e["ox"]), tuple(e["oy"]), e["w"], e["h"],
                                     tuple(geo.get(s) for s in e["i"]), tuple(geo.get(s) for s in e["o"])))
                for x in e["ch"]:
                    geo[x["id"]] = (x["w"], x["h"], x["cc"])
        for e in tr:
            if e["e"] == "call" and e["t"] == 0 and e["w"] > 1:
                res["sample"] = {k: v for k, v in e.items() if k not in ("ch", "e", "p", "r")}
                break
    return res


def kernels(rep, tier, seed):
    """The kernel of the Gaussian filter: its model and recorded kernels."""
    import math_checks
    from trace_checks import model, report_shards, sequential_shard
    model(rep, "KernelModel", "KernelModel.cfg", workers=8)
    if tier != "quick":
        text = open(os.path.join(SPECS, "KernelModel.cfg")).read()
        with Scratch() as d:
            for f in ("Middle", "Manhattan", "LastRow", "Stride"):
                path = os.path.join(d, f + ".cfg")
                with open(path, "w") as out:
                    out.write(text.replace('"none"', '"%s"' % f))
                if "is violated" not in tlc("KernelModel.tla", path, 300, workers=8).out:
                    raise CheckError("the modelled defect %s is not found" % f)
    exe = math_checks.build_mathdrv()
    n, events = (4, 1500) if tier == "quick" else (32, 4000)
    results = parallel(sequential_shard, [{"exe": exe, "module": "KernelTrace", "describe": math_checks.describe, "count": math_checks.count, "context": 4,
                                           "args": ["--mode", "kernel", "--seed", str(seed * 1013 + j), "--events", str(events)]} for j in range(n)])
    rep.cov["kernels"] = sum(r["trace_info"]["calls"] for r in results if r["trace_info"])
    report_shards(rep, results)


def check(prop, tier, seed):
    rep = Report(prop, tier, seed, "model_checking")
    exe = build_ocldrv() if prop == "C10" else build_imgdrv()
    todo = shards(prop, tier, seed)
    seen, ops, distinct = {}, {}, set()
    for r in parallel(lambda a: one_shard(exe, a, prop), todo):
        rep.add("states", r["states"])
        rep.add("transitions", r["states"])
        rep.add("traces_validated_against_impl", 1)
        rep.add("evaluations", r["calls"])
        distinct |= r["distinct"]
        for k, v in r["ops"].items():
            ops[k] = ops.get(k, 0) + v
        if "sample" in r:
            rep.sample(r["sample"])
        for what, detail in r["viol"]:
            e = detail.get("event", {})
            key = (e.get("op", what), e.get("v"), tuple(detail.get("reasons", [])))
            seen[key] = seen.get(key, 0) + 1
            if seen[key] <= 2:
                rep.violation(what, detail)
    if prop == "C16":
        kernels(rep, tier, seed)
    rep.cov["distinct_nontrivial"] = len(distinct)
    rep.cov["rule"] = ("calls of image functions generated from the seed over images of random size, padding, colour count and contents; "
                       "two calls are the same when function, variant, form, outcome, regions and image geometry agree")
    rep.cov["calls_per_function"] = dict(sorted(ops.items()))
    rep.assumptions = ["pixel contents, sizes and regions are sampled, not enumerated", "TLC evaluates specs/ImageOps.tla correctly"]
    return rep
