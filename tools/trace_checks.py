"""Checks made of a driver which records what the real code does and a TLA+ module which judges the records."""
import json
import os
import re

from vlib import *


def sequential_shard(job):
    """job: exe, args, module (trace specification), describe(trace, line, reasons) -> (what, detail) or None, timeout.

    Runs the driver and TLC; returns counts and violations. A driver which crashes or hangs is a violation if it does so again."""
    exe, args, module = job["exe"], job["args"], job["module"]
    res = {"args": args, "viol": [], "lines": 0, "states": 0, "stats": {}, "trace_info": None}
    with Scratch() as d:
        path = os.path.join(d, "trace.ndjson")
        env = dict(job.get("env") or {})
        env["SCRATCH"] = d
        cmd = [exe, *args, "--out", path]
        limit = job.get("timeout", 120 if os.environ.get("VERIF_TIER_USED") != "thorough" else 250)
        rc, out, _ = run(cmd, limit, env=env, stop=HANG)
        if rc == "stopped":
            return res
        if rc in (2, 3):
            raise CheckError("driver cannot run: " + out[-500:])
        tr = read_trace(path)
        if rc not in (0, 42):
            rc2, out2, _ = run(cmd, limit, env=env, stop=HANG)
            if rc2 == "stopped":
                return res
            if rc2 in ("timeout", 98):
                HANG.set()
            if rc2 in (0, 42):
                # what depends on the schedule of threads need not happen again
                if not (job.get("threads") and re.search("AddressSanitizer: (attempting|heap-|SEGV)", out)):
                    raise CheckError("driver ended with %s once and not again: %s" % (rc, summary_of(out)))
                rc2, out2 = rc, out
            else:
                tr = read_trace(path)
            kind = "never returns" if rc2 in ("timeout", 98) else "crashes"
            res["viol"].append(("%s after %s" % (kind, {k: v for k, v in (tr[-1] if tr else {}).items() if k not in job.get("bulky", ())}),
                                {"driver": args, "last_events": tr[-job.get("context", 10):], "report": summary_of(out2, 20)}))
            with open(path, "w") as f:
                for e in tr:
                    f.write(json.dumps(e) + "\n")
        for k, v in re.findall(r"(\w+)=(\d+)", (re.findall(r"^STATS (.*)$", out, re.M) or [""])[-1]):
            res["stats"][k] = int(v)
        fails = re.findall(r"^FAILURE (.*)$", out, re.M)
        if not tr:
            return res
        t = tlc(module + ".tla", job.get("cfg", module + ".cfg"), job.get("tlc_timeout", 600), env={"TRACE": path}, heap=job.get("heap", "3g"))
        parsed = parse_bad(t.out)
        if parsed is None and 0 < undefined_step(t) <= len(tr):
            e = tr[undefined_step(t) - 1]
            res["viol"].append(("%s gives what the specification has no meaning for" % e.get("e"),
                                {"driver": args, "line": undefined_step(t), "step": json.dumps(e)[:2000], "report": t.tail()[-1500:]}))
            return res
        if parsed is None or parsed[0] != len(tr):
            raise CheckError("TLC did not read the whole trace of %s: %s" % (args, t.tail()))
        res["lines"], res["states"] = len(tr), t.distinct
        for line, reasons in parsed[1]:
            if "driver" in reasons:
                raise CheckError("the driver does not do what it says: line %d of %s: %s" % (line, args, json.dumps(tr[line - 1])[:600]))
            v = job["describe"](tr, line, reasons)
            if v:
                what, detail = v
                detail.update({"driver": args, "line": line, "reasons": reasons, "failures": fails[:3]})
                res["viol"].append((what, detail))
                if len(res["viol"]) >= job.get("most", 30):
                    break
        if "count" in job:
            res["trace_info"] = job["count"](tr)
    return res


def read_trace(path):
    tr = []
    if os.path.exists(path):
        with open(path, errors="replace") as f:
            for x in f:
                try:
                    tr.append(json.loads(x))
                except ValueError:
                    break
    return tr


def since_begin(tr, line, limit=60):
    """The events of the history the line belongs to."""
    first = max((i for i in range(line) if tr[i]["e"] == "begin"), default=0)
    return tr[first:line][-limit:]


def report_shards(rep, results, key=lambda what: re.sub(r"[0-9]+", "", what)):
    seen = {}
    for r in results:
        rep.add("trace_lines", r["lines"])
        rep.add("states", r["states"])
        rep.add("transitions", r["states"])
        rep.add("traces_validated_against_impl", 1)
        for what, detail in r["viol"]:
            k = key(what)
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 2:
                rep.violation(what, detail)


def model(rep, module, cfg, timeout=300, workers=4, heap="6g", prints=None):
    """Explores a model which does not depend on /repo; returns the printed scripts."""
    t = tlc(module + ".tla", cfg, timeout, workers=workers, heap=heap)
    if not t.ok:
        raise CheckError("the model %s is not as expected: %s" % (module, t.tail()))
    rep.add("states", t.distinct)
    rep.add("transitions", t.generated)
    rep.cov.setdefault("model_states", {})[module] = t.distinct
    return re.findall(r'<<\s*"%s",\s*"([^"]*)"\s*>>' % prints, t.out) if prints else []
