"""Building, running, model checking and reporting shared by all checks.

Standard library only. Everything generated goes to /verif/.build and
/verif/evidence, which git ignores.
"""
import concurrent.futures
import hashlib
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EVIDENCE = os.path.join(VERIF, "evidence")
SPECS = os.path.join(VERIF, "specs")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not do its work (no verdict)."""


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building

def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


_header_hash = {}


_SEPARATE = (".cpp", ".c", ".cc", ".cxx")  # compiled on their own: part of the hash only when some file includes one


def _headers(root):
    """Hash of everything that a translation unit may include from root."""
    if root not in _header_hash:
        files = {}
        for d, dirs, names in sorted(os.walk(root)):
            dirs.sort()
            for n in sorted(names):
                f = os.path.join(d, n)
                if os.path.isfile(f):
                    files[f] = open(f, "rb").read()
        included = any(re.search(rb"^\s*#\s*include[^\n]*\.(cpp|c|cc|cxx)[\">]", c, re.M) for c in files.values())
        h = hashlib.sha256()
        for f, content in files.items():
            if included or not f.endswith(_SEPARATE):
                h.update(f.encode() + b"\0" + content)
        _header_hash[root] = h.hexdigest()
    return _header_hash[root]


def _compile(src, flags):
    content = open(src, "rb").read()
    deps = _headers(os.path.join(REPO, "src"))
    if src.startswith(VERIF):
        deps += _headers(os.path.join(VERIF, "harness"))
    obj = os.path.join(BUILD, "obj", _sha(src, content, deps, " ".join(flags)) + ".o")
    if not os.path.exists(obj):
        tmp = "%s.%d.%d" % (obj, os.getpid(), id(flags))
        p = subprocess.run([*(["gcc", *(f for f in flags if not f.startswith("-std="))] if src.endswith(".c") else ["g++", *flags]), "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("cannot compile %s:\n%s" % (src, p.stdout[-4000:]))
        os.replace(tmp, obj)
    return obj


BASE = ["-std=c++17", "-g1", "-march=native", "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "harness")]


def _archive(without, flags, path):
    """A library of all sources of /repo which compile and are not listed."""
    src = os.path.join(REPO, "src")
    rest = [f for d in (".", "math", "tool", "file", "penguinv") for f in sorted(glob.glob(os.path.normpath(os.path.join(src, d, "*.cpp")))) if os.path.relpath(f, src) not in without]

    def one(f):
        try:
            return _compile(f, flags)
        except CheckError:
            return None
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        objs = [o for o in ex.map(one, rest) if o]
    lib = path + ".a"
    if os.path.exists(lib):
        os.remove(lib)
    subprocess.run(["ar", "rcs", lib, *objs], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return lib


def build(name, harness, sources, flags=(), repo_opt="-O1", harness_opt="-O0", per_source=None, libs=("-lpthread",), asan=True):
    """Builds a driver out of /repo's current sources; returns the executable."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    san = ["-fsanitize=address", "-fno-omit-frame-pointer"] if asan else []
    jobs = []
    for s in sources:
        extra = (per_source or {}).get(s, [])
        jobs.append((os.path.join(REPO, "src", s), [*BASE, repo_opt, *san, *flags, *extra]))
    for h in ([harness] if isinstance(harness, str) else harness):
        jobs.append((os.path.join(VERIF, "harness", h), [*BASE, harness_opt, *san, *flags]))
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        objs = list(ex.map(lambda j: _compile(*j), jobs))
    exe = os.path.join(BUILD, name + "-" + _sha(*objs, *libs, str(asan)))
    if not os.path.exists(exe):
        tmp = "%s.%d" % (exe, os.getpid())
        p = subprocess.run(["g++", *san, *objs, *libs, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:  # code may have moved to other files: let the linker pick what it needs from all of them
            lib = _archive(set(sources), [*BASE, repo_opt, *san, *flags], tmp)
            p = subprocess.run(["g++", *san, *objs, lib, *libs, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            os.remove(lib)
        if p.returncode != 0:
            raise CheckError("cannot link %s:\n%s" % (name, p.stdout[-4000:]))
        os.replace(tmp, exe)
    return exe


# ---------------------------------------------------------------- running

ASAN_ENV = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1"


class Scratch:
    """A scratch directory that disappears again."""

    def __enter__(self):
        base = os.path.join(BUILD, "run")
        os.makedirs(base, exist_ok=True)
        self.path = tempfile.mkdtemp(dir=base)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


HANG = threading.Event()  # set when a driver has been seen to hang twice: the others are not waited for


def run(cmd, timeout, env=None, cwd=None, stop=None):
    """Returns (return code, 'timeout' or 'stopped', combined output, seconds)."""
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ASAN_ENV
    e["POCL_CACHE_DIR"] = os.path.join(BUILD, "pocl")  # compiled OpenCL kernels, by contents
    e.update(env or {})
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd, start_new_session=True)
    while True:
        left = timeout - (time.time() - t)
        try:
            out, _ = p.communicate(timeout=max(0.01, min(left, 2)) if stop else max(0.01, left))
            rc = p.returncode
            break
        except subprocess.TimeoutExpired:
            stopped = stop is not None and stop.is_set()
            if time.time() - t < timeout and not stopped:
                continue
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            out, _ = p.communicate()
            rc = "stopped" if stopped else "timeout"
            break
    return rc, out.decode(errors="replace"), time.time() - t


def summary_of(output, n=12):
    """The lines of a crash report which say what happened where."""
    lines = [x.strip() for x in output.splitlines()]
    keep = [x for x in lines if re.search(r"ERROR|SUMMARY|terminate|what\(\)|Assertion|^#[0-9] |^FAIL", x)]
    return keep[:n] if keep else lines[-n:]


class Tlc:
    """Outcome of one TLC run."""

    def __init__(self, rc, out, secs):
        self.rc, self.out, self.secs = rc, out, secs
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        self.finished = "Model checking completed" in out or "Finished in" in out
        self.ok = rc == 0 and "No error has been found" in out

    def tail(self):
        return "\n".join(x for x in self.out.splitlines() if not re.match(r"Parsing file|Semantic processing|Linting|Computed ", x))[-3000:]


def undefined_step(t):
    """The number of the trace line for which the specification has no value (a result of a shape it does not allow), or 0."""
    if "The error occurred when TLC was evaluating the nested" not in t.out or not re.search(
            r"Attempted to (apply|access|select|compare|check equality|check if|evaluate an expression of form CHOOSE)|out of domain|not in the domain|nonexistent field", t.out) \
            or re.search(r"StackOverflow|OutOfMemory|heap space|[Oo]verflow when computing|too many elements", t.out):
        return 0
    return t.distinct


def tlc(module, cfg, timeout, env=None, workers=1, heap="3g", extra=(), stack="64m"):
    with Scratch() as meta:
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(2, min(workers, 8)), "-Xss" + stack, "-Xmx" + heap,
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, module]
        rc, out, secs = run(cmd, timeout, env=env, cwd=SPECS)
    return Tlc(rc, out, secs)


def parse_bad(out, tag="RESULT"):
    """<<"RESULT", "lines", n, "bad", <<<<line, {reasons}>>, ...>>>> -> n, [(line, reasons)]"""
    m = re.search(r'<<\s*"%s",\s*"lines",\s*(\d+),\s*"bad",(.*?)>>\s*\n(?=\S)' % tag, out, re.S)
    if not m:
        m = re.search(r'<<\s*"%s",\s*"lines",\s*(\d+),\s*"bad",(.*)' % tag, out, re.S)
        if not m:
            return None
    bad = [(int(l), sorted(x.strip().strip('"') for x in r.split(",") if x.strip())) for l, r in re.findall(r"<<(\d+),\s*\{([^}]*)\}>>", m.group(2))]
    return int(m.group(1)), bad


NO_VERDICT = []  # what kept parts of the check from giving one


def parallel(fn, items, n=None):
    def guarded(item):
        try:
            return fn(item)
        except CheckError as e:
            NO_VERDICT.append(e)
            return None
    with concurrent.futures.ThreadPoolExecutor(n or CORES) as ex:
        return [r for r in ex.map(guarded, items) if r is not None]


# ---------------------------------------------------------------- reporting

class Report:
    latest = None

    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.start = time.time()
        self.violations = []
        self.cov = {}
        self.assumptions = []
        self.known = []
        Report.latest = self
        self.replays = os.path.join(EVIDENCE, "replay")
        os.makedirs(self.replays, exist_ok=True)

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        l = self.cov.setdefault("samples", [])
        if len(l) < 5:
            l.append(s)

    def violation(self, what, detail):
        """what: one line; detail: JSON-able material to replay it."""
        n = len(self.violations) + 1
        if n > 20:
            self.violations.append(None)
            return
        path = os.path.join(self.replays, "%s-%d.json" % (self.prop, n))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "detail": detail}, f, indent=1, default=str)
        self.violations.append(path)
        log("  " + what)
        log("VIOLATION property=%s replay=%s" % (self.prop, path))

    def known_finding(self, name):
        """Whether known-findings.txt lists it ("finding: property=<id> <name> <text>"); tells so once."""
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) (\S+) (.*)", line)
                if m and m.group(1) == self.prop and m.group(2) == name:
                    if name not in self.known:
                        self.known.append(name)
                        log("KNOWN-FINDING: property=%s %s: %s" % (self.prop, name, m.group(3)))
                    return True
        return False

    def finish(self):
        if NO_VERDICT and not self.violations:
            raise NO_VERDICT[0]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.start, 2), "violations": len(self.violations)}
        if not self.cov.get("samples"):
            self.cov["samples"] = ["none"]
        os.makedirs(EVIDENCE, exist_ok=True)
        tmp = os.path.join(EVIDENCE, ".%s.%d" % (self.prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(EVIDENCE, self.prop + ".json"))
        short = {k: v for k, v in self.cov.items() if isinstance(v, (int, float))}
        log("%s %s: %d violation(s), %s, %.1f s" % (self.prop, self.tier, len(self.violations), short, ev["wall_s"]))
        return 1 if self.violations else 0
