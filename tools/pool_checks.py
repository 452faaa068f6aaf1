"""Thread pool properties.

The design (specs/ThreadPoolImpl.tla) is explored exhaustively by TLC and has to refine specs/ThreadPool.tla. The real pool is run
under a deterministic scheduler (harness/vsched.cpp) which chooses the interleaving from a seed; TLC judges every recorded
execution against specs/ThreadPool.tla. Client programs are the ones of the model (printed by TLC) and random bigger ones.
"""
import json
import os
import re
import threading

from vlib import *

POOL_SOURCES = ["thread_pool.cpp", "function_pool.cpp", "function_pool_task.cpp"]
OTHER_SOURCES = ["image_function.cpp", "image_function_helper.cpp", "image_function_simd.cpp", "penguinv/penguinv.cpp"]
FAULTS = {"LostWakeup", "ThrowLosesTask", "GivenNotCompleted", "CheckAfterwards", "ClearLosesTasks", "NotifyOne", "WaitDoesNotWait", "FailureStays", "StopKeepsExit", "WakesFew"}


def build_pooldrv():
    return build("pooldrv", ["pooldrv.cpp", "vsched.cpp"], POOL_SOURCES + OTHER_SOURCES, asan=False, harness_opt="-O1",
                 per_source={s: ["-fsanitize=thread"] for s in POOL_SOURCES}, libs=("-rdynamic", "-lpthread", "-ldl"))


def build_bulkdrv():
    return build("bulkdrv", "bulkdrv.cpp", ["thread_pool.cpp"], asan=False, harness_opt="-O1")


# property -> list of (weight, focus or name of a set of the model's programs, executions per shard)
FOCUS = {
    "C01": [(9, "tasks"), (4, "TASKS"), (3, "fp"), (2, "large")],
    "C02": [(8, "tasks"), (3, "TASKS"), (5, "fp"), (2, "large")],
    "C03": [(11, "life"), (5, "LIFE"), (2, "large")],
}
# what the trace specification reports -> properties it concerns
REASON = {
    "idle": {"C01"}, "result": {"C02"}, "exception": {"C02", "C03"}, "function": {"C02", "C01"},
    "refusal": {"C03"}, "size": {"C03"}, "stop": {"C03"}, "empty": {"C03"},
}
HARNESS = {"driver", "overlap"}
EXECUTIONS = {"quick": {"tasks": 2500, "life": 2500, "TASKS": 2500, "LIFE": 3500, "fp": 2000, "large": 220},
              "thorough": {"tasks": 6000, "life": 6000, "TASKS": 6000, "LIFE": 8000, "fp": 6000, "large": 600}}
ROUNDS = {"quick": 18, "thorough": 128}
SETS = {"C01": "TaskScenarios", "C02": "TaskScenarios", "C03": "LifeScenarios"}


def model_scenarios():
    t = tlc("ThreadPoolGenerate.tla", "ThreadPoolGenerate.cfg", 120)
    found = re.findall(r'<<\s*"(TASKS|LIFE)",\s*"([^"]*)"\s*>>', t.out)
    if not t.ok or not found:
        raise CheckError("TLC does not print the scenarios: " + t.tail())
    return {k: [x for n, x in found if n == k] for k in ("TASKS", "LIFE")}


def explore_design(prop, tier):
    """TLC over every interleaving of the model's programs; the design itself does not depend on /repo."""
    with Scratch() as d:
        cfg = os.path.join(d, "design.cfg")
        with open(cfg, "w") as f:
            f.write('SPECIFICATION Spec\nCONSTANTS\n  Fault = "none"\n  Scenarios <- %s\nINVARIANT Refines\nCHECK_DEADLOCK TRUE\n' % SETS[prop])
            if tier == "thorough":
                f.write("PROPERTY Terminates\n")
        t = tlc("ThreadPoolImpl.tla", cfg, 800 if tier == "thorough" else 300, workers=8 if tier == "thorough" else 4, heap="8g")
    if not t.ok:
        raise CheckError("the design model is not as expected: " + t.tail())
    return t


def find_scenario(exe, args, number):
    """The program and schedule seed of the n-th execution of a run."""
    rc, out, _ = run([exe, *args, "--verbose", "--out", "/dev/null", "--executions", str(number + 1)], 60)
    m = re.findall(r"^EXECUTION %d seed (\d+): (.*)$" % number, out, re.M)
    fails = re.findall(r"^FAILURE (.*)$", out, re.M)
    return (m[-1] if m else ("?", "?")), fails[:5]


def one_shard(exe, args, executions, prop):
    res = {"args": args, "viol": [], "executions": 0, "lines": 0, "states": 0, "steps": 0, "choices": 0, "distinct": 0}
    with Scratch() as d:
        path = os.path.join(d, "trace.ndjson")
        cmd = [exe, *args, "--executions", str(executions), "--out", path]
        limit = 150 if os.environ.get("VERIF_TIER_USED") != "thorough" else 250
        rc, out, _ = run(cmd, limit, stop=HANG)
        if rc == "stopped":
            return res
        m = re.search(r"STATS executions=(\d+) steps=(\d+) choices=(\d+) distinct=(\d+) lines=(\d+)", out)
        tr = []
        if os.path.exists(path):
            with open(path, errors="replace") as f:
                for x in f:
                    try:
                        tr.append(json.loads(x))
                    except ValueError:
                        break
        if rc not in (0, 42):
            # the process died: keep what was recorded, the trace ends inside an execution
            rc2, out2, _ = run(cmd[:-1] + [path + ".again"], limit, stop=HANG)
            if rc2 == "stopped":
                return res
            if rc2 == "timeout":
                HANG.set()
            if rc2 in (0, 42):
                raise CheckError("driver ended with %s once and not again: %s" % (rc, summary_of(out)))
            n = sum(1 for e in tr if e["e"] == "begin")
            (seed, text), fails = find_scenario(exe, args, n)
            res["viol"].append(("execution ends with %s: %s" % ("no answer" if rc == "timeout" else "signal or exit %s" % rc, " ".join(summary_of(out, 3))),
                                {"driver": args, "execution": n, "scenario": text, "schedule_seed": seed, "report": summary_of(out, 20)}))
            with open(path, "w") as f:
                for e in tr:
                    f.write(json.dumps(e) + "\n")
        elif rc == 0 and not m:
            raise CheckError("driver says nothing: " + out[-500:])
        if m:
            res["executions"], res["steps"], res["choices"], res["distinct"] = (int(m.group(i)) for i in (1, 2, 3, 4))
        else:
            res["executions"] = sum(1 for e in tr if e["e"] == "begin")
        if not tr:
            return res
        t = tlc("ThreadPoolTrace.tla", "ThreadPoolTrace.cfg", 600, env={"TRACE": path}, heap="3g")
        parsed = parse_bad(t.out)
        if parsed is None or parsed[0] != len(tr):
            raise CheckError("TLC did not read the whole trace of %s: %s" % (args, t.tail()))
        res["lines"], res["states"] = len(tr), t.distinct
        for line, reasons in parsed[1][:40]:
            if set(reasons) & HARNESS:
                raise CheckError("the driver does not do what it says: %s at line %d of %s" % (reasons, line, args))
            mine = [r for r in reasons if prop in REASON.get(r, {prop})]
            if not mine:
                continue
            begins = [i for i, e in enumerate(tr[:line]) if e["e"] == "begin"]
            number = len(begins) - 1
            events = tr[begins[-1]:line]
            res["viol"].append((",".join(mine), number, events[-1], events))
        # describe the first ones in full
        full = []
        for v in res["viol"]:
            if len(v) == 2:
                full.append(v)
            elif len(full) < 3:
                what, number, last, events = v
                (seed, text), fails = find_scenario(exe, args, number)
                full.append(("%s at %s in program '%s' %s" % (what, {k: x for k, x in last.items()}, text.strip(), fails[:1]),
                             {"driver": args, "execution": number, "scenario": text, "schedule_seed": seed, "failures": fails, "reasons": what, "events": events[-200:]}))
        res["viol"] = full
        res["sample"] = {"driver": " ".join(args), "execution": 0, "events": len([1 for e in tr[: next((i for i, e in enumerate(tr) if e["e"] == "end"), len(tr))]])}
    return res


BULK = {"C01": {"missing", "twice", "thread", "early", "concurrency"}, "C02": {"result"}, "C03": {"missing", "twice", "early", "result"}}


def bulk(rep, prop, tier, seed):
    """Many rounds, tasks and pools on real threads: only sums are judged."""
    from trace_checks import report_shards, sequential_shard

    def describe(tr, line, reasons):
        e = tr[line - 1]
        mine = [r for r in reasons if r in BULK[prop] and (prop != "C03" or e["e"] == "lives")]
        return ("real threads, %s: %s" % (e["e"], ",".join(mine)), {"event": e}) if mine else None

    def count(tr):
        return sum(c["ran"] for e in tr if "clients" in e and e["e"] != "start" for c in e["clients"])
    exe = build_bulkdrv()
    n, events = (4, 15) if tier == "quick" else (16, 60)
    results = parallel(sequential_shard, [{"exe": exe, "module": "PoolBulkTrace", "timeout": 90, "describe": describe, "count": count,
                                           "args": ["--seed", str(seed * 1019 + j + ord(prop[2]) * 5), "--events", str(events)]} for j in range(n)])
    rep.cov["tasks_on_real_threads"] = sum(r["trace_info"] or 0 for r in results)
    report_shards(rep, results)


def check(prop, tier, seed):
    rep = Report(prop, tier, seed, "model_checking")
    exe = build_pooldrv()
    scenarios = model_scenarios()
    design = {}

    def explore():
        try:
            design["tlc"] = explore_design(prop, tier)
        except Exception as e:  # noqa: BLE001
            design["error"] = e

    worker = threading.Thread(target=explore)
    worker.start()
    with Scratch() as d:
        files = {}
        for k, v in scenarios.items():
            files[k] = os.path.join(d, k)
            with open(files[k], "w") as f:
                f.write("\n".join(v) + "\n")
        jobs = []
        total = sum(w for w, _ in FOCUS[prop])
        for k, (w, focus) in enumerate(FOCUS[prop]):
            for j in range(max(1, round(ROUNDS[tier] * w / total))):
                s = (seed * 1000003 + k * 10007 + j * 101 + sum(map(ord, prop)) * 17) % (1 << 28)
                args = ["--seed", str(s)] + (["--focus", focus] if focus not in files else ["--scenarios", files[focus], "--schedules", "6"])
                jobs.append((args, EXECUTIONS[tier][focus]))
        results = parallel(lambda a: one_shard(exe, a[0], a[1], prop), jobs)
    worker.join()
    if "error" in design:
        raise design["error"] if isinstance(design["error"], CheckError) else CheckError(str(design["error"]))
    t = design["tlc"]
    seen = {}
    for r in results:
        rep.add("evaluations", r["executions"])
        rep.add("distinct_nontrivial", r["distinct"])
        rep.add("traces_validated_against_impl", r["executions"])
        rep.add("trace_events", r["lines"])
        rep.add("scheduling_choices", r["choices"])
        rep.add("states", r["states"])
        rep.add("transitions", r["states"])
        if "sample" in r:
            rep.sample(r["sample"])
        for what, detail in r["viol"]:
            key = re.sub(r"[0-9]+", "", what.split(" in program")[0])
            seen[key] = seen.get(key, 0) + 1
            if seen[key] <= 2:
                rep.violation(what, detail)
    bulk(rep, prop, tier, seed)
    rep.add("states", t.distinct)
    rep.add("transitions", t.generated)
    rep.cov["design_states"] = t.distinct
    rep.cov["programs_of_the_model"] = {k: len(v) for k, v in scenarios.items()}
    rep.cov["rule"] = ("an execution is one program under one schedule chosen from the seed (random, sticky, priority based with change points, round robin; "
                       "spurious wake-ups in a third); two executions are the same when program and sequence of scheduling choices agree")
    rep.cov["exhaustive"] = False
    rep.assumptions = ["interleavings of the real code are sampled; those of the model with at most 2 clients, 2 tasks per round and 3 threads are exhaustive",
                       "memory is sequentially consistent apart from the data races the scheduler reports (the code uses locks and sequentially consistent atomics)",
                       "std::condition_variable, std::mutex and std::thread work through pthread"]
    return rep
