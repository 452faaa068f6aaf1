"""C28: OpenCL devices and images on them (specs/Device.tla, DeviceModel.tla, QueueModel.tla, DeviceTrace.tla)."""
import collections

from trace_checks import *

QUEUE_FAULTS = ("NoMaximum", "NoMinimum", "OneTooFar", "KeepsCurrent", "ReleasesFirst", "Keeps", "CurrentUnchecked")
FAULTS = ("OpensTwice", "CloseLast", "NoCheck", "OneForAll", "ByDevice")


def build_devdrv():
    return build("devdrv", "devdrv.cpp", ["opencl/image_function_opencl.cpp", "opencl/opencl_device.cpp", "opencl/opencl_helper.cpp", "image_function.cpp", "image_function_helper.cpp", "thread_pool.cpp"],
                 flags=["-DCL_TARGET_OPENCL_VERSION=210", "-Wno-deprecated-declarations"], libs=("-lpthread", "-lOpenCL"))


def describe(tr, line, reasons):
    e = tr[line - 1]
    return "%s: %s" % (e.get("op", e["e"]), ",".join(reasons)), {"history": [x for x in since_begin(tr, line, 80) if x["e"] != "start"]}


def count(tr):
    keys, kinds, sample, h = set(), collections.Counter(), None, []
    for e in tr:
        if e["e"] == "start":
            continue
        if e["e"] == "begin":
            if len(h) > 1:
                keys.add(hash(str(h)))
            if sample is None and 5 < len(h) < 12:
                sample = list(h)
            h = []
        elif e["e"] != "end":
            kinds[e["op"] + (" (refused)" if e["t"] else "")] += 1
            h.append([e.get(k) for k in ("op", "th", "d", "c", "a", "b", "cs", "w", "h", "t") if k in e])
    return {"calls": sum(kinds.values()), "keys": keys, "kinds": kinds, "sample": sample}


def check(prop, tier, seed):
    rep = Report(prop, tier, seed, "model_checking")
    quick = tier == "quick"
    with Scratch() as d:
        def cfg(name, *changes, of="DeviceModel"):
            path = os.path.join(d, name + ".cfg")
            t = open(os.path.join(SPECS, of + ".cfg")).read()
            for old, new in changes:
                t = t.replace(old, new)
            with open(path, "w") as f:
                f.write(t)
            return path
        model(rep, "DeviceModel", cfg("model", *([] if quick else [("Contexts = 4", "Contexts = 7")])), workers=4)
        t = tlc("DeviceModel.tla", cfg("scripts", ("Printing = FALSE", "Printing = TRUE"), ("Contexts = 4", "Contexts = %d" % (2 if quick else 3))), 600, workers=1)
        scripts = sorted(set(re.findall(r'"SCRIPT ([^"]*)"', t.out)))
        if not t.ok or len(scripts) < 1000:
            raise CheckError("the model prints no scripts: %s" % t.tail())
        model(rep, "QueueModel", os.path.join(SPECS, "QueueModel.cfg"), workers=4)
        t = tlc("QueueModel.tla", cfg("queues", ("Printing = FALSE", "Printing = TRUE"), of="QueueModel"), 600, workers=1)
        queues = sorted(set(re.findall(r'"SCRIPT ([^"]*)"', t.out)))
        if not t.ok or len(queues) < 200:
            raise CheckError("the model of queues prints no scripts: %s" % t.tail())
        rep.cov["scripts_of_the_model"] = len(scripts) + len(queues)
        if not quick:
            for f in FAULTS:
                t = tlc("DeviceModel.tla", cfg(f, ('"none"', '"%s"' % f)), 600, workers=4)
                if "is violated" not in t.out:
                    raise CheckError("the modelled defect %s is not found" % f)
            for f in QUEUE_FAULTS:
                t = tlc("QueueModel.tla", cfg(f, ('"none"', '"%s"' % f), of="QueueModel"), 600, workers=4)
                if "is violated" not in t.out:
                    raise CheckError("the modelled defect %s is not found" % f)
        exe = build_devdrv()
        # two devices, or three, all of them the processor
        common = {"exe": exe, "module": "DeviceTrace", "describe": describe, "count": count, "bulky": ("images", "which", "queues", "host"), "context": 12, "timeout": 220, "threads": True}
        jobs = []
        for j in range(8 if quick else 64):
            jobs.append({**common, "env": {"POCL_DEVICES": "cpu cpu" if j % 4 else "cpu cpu cpu"}, "args": ["--seed", str(seed * 1013 + j), "--histories", str(60 if quick else 120)]})
        share = (scripts[seed % 4::4] if quick else scripts) + queues
        for n in range(8 if quick else 64):
            path = os.path.join(d, "scripts.%d" % n)
            with open(path, "w") as f:
                f.write("\n".join(share[n::8 if quick else 64]) + "\n")
            jobs.append({**common, "env": {"POCL_DEVICES": "cpu cpu"}, "args": ["--seed", str(seed * 131 + n), "--script", path]})
        results = parallel(sequential_shard, jobs)
    keys, kinds = set(), collections.Counter()
    for r in results:
        if r["trace_info"]:
            i = r["trace_info"]
            rep.add("evaluations", i["calls"])
            keys |= i["keys"]
            kinds += i["kinds"]
            if i["sample"]:
                rep.sample(i["sample"])
    rep.cov["distinct_nontrivial"] = len(keys)
    rep.cov["calls"] = dict(kinds)
    rep.cov["rule"] = "histories count once for each sequence of operations and their arguments"
    rep.assumptions = ["devices are pocl's on the processor, two or three of them", "images are used and destroyed while their device is open and the active one of the thread",
                       "no device is opened or closed while another thread works"]
    report_shards(rep, results)
    return rep
