"""Shared machinery of the checks: build cache, driver runs, TLC runs, evidence, verdicts."""
import concurrent.futures, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "_build")
SPEC = os.path.join(VERIF, "spec")
NCPU = min(8, os.cpu_count() or 1)
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
BASE_FLAGS = ["-include", VERIF + "/harness/shim/compat.h", "-I" + VERIF + "/harness/shim", "-I" + VERIF + "/harness",
              "-I" + REPO + "/include", "-DCGAL_USE_GMPXX=1", "-DCMAKE_OVERRIDDEN_DEFAULT_ENT_BACKEND=3",
              "-DBOOST_CONTAINER_DYN_LINK", "-O1", "-g0", "-std=c++20", "-w"]
LIBS = ["-lgmpxx", "-lgmp", "-lmpfr", "-lboost_container", "-lpthread"]

class CheckError(Exception): pass          # the check itself could not decide (exit 3)

def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root): files = [root]
        else: files = sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs if "__pycache__" not in d)
        for f in files:
            h.update(f.encode()); h.update(b"\0")
            with open(f, "rb") as fh: h.update(fh.read())
            h.update(b"\1")
    return h.hexdigest()

def compile_many(jobs):
    """jobs: list of (name, [sources], extra_flags, extra_libs, extra_hash_paths) -> {name: binary}; cached by content."""
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    base = tree_hash([REPO + "/include", VERIF + "/harness/shim", VERIF + "/harness/common.h"])
    out, todo = {}, []
    for name, srcs, flags, libs, extra in jobs:
        key = hashlib.sha256((base + tree_hash(srcs + extra) + repr(flags) + repr(libs) + repr(BASE_FLAGS)).encode()).hexdigest()[:20]
        exe = os.path.join(BUILD, "bin", "%s.%s" % (name, key))
        out[name] = exe
        if not os.path.exists(exe): todo.append((name, srcs, flags, libs, exe))
    def go(t):
        name, srcs, flags, libs, exe = t
        tmp = exe + ".tmp%d" % os.getpid()
        p = subprocess.run([CXX] + BASE_FLAGS + flags + srcs + ["-o", tmp] + libs + LIBS, capture_output=True, text=True)
        if p.returncode != 0:
            return "compilation of %s failed:\n%s" % (name, "\n".join(l for l in p.stderr.splitlines() if "error" in l)[:3000])
        for f in os.listdir(os.path.dirname(exe)):   # drop superseded builds
            if f.startswith(name + ".") and f != os.path.basename(tmp):
                try: os.unlink(os.path.join(os.path.dirname(exe), f))
                except OSError: pass
        os.replace(tmp, exe)
        return None
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(go, todo) if e]
    if errs: raise CheckError("\n".join(errs))
    return out

HARN = VERIF + "/harness/"
YIELD = ["-fsanitize-coverage=trace-pc-guard"]
TSAN = YIELD + ["-fsanitize=thread"]
DRIVERS = {  # name -> (sources in harness/, flags, libs, paths outside include/ that are part of the build)
    "drv_region": (["drv_region.cc"], [], [], []),
    "drv_region_yield": (["drv_region.cc", "perturb.cc"], YIELD, [], []),
    "drv_region_tsan": (["drv_region.cc", "perturb.cc"], TSAN, [], []),
    "drv_tritri": (["drv_tritri.cc"], [], [], []),
    "drv_loop_sched": (["drv_loop.cc"], ["-DVH_SCHED"], [], [HARN + "ctlsched.h"]),
    "drv_loop_tsan": (["drv_loop.cc", "perturb.cc"], TSAN, [], []),
    "drv_loop_yield": (["drv_loop.cc", "perturb.cc"], YIELD, [], []),
    "drv_sort_sched": (["drv_sort.cc"], ["-DVH_SCHED"], [], [HARN + "ctlsched.h"]),
    "drv_sort_tsan": (["drv_sort.cc", "perturb.cc"], TSAN, [], []),
    "drv_sort_yield": (["drv_sort.cc", "perturb.cc"], YIELD, [], []),
    "drv_io": (["drv_io.cc"], [], [], []),
    "drv_io_gmp": (["drv_io.cc"], ["-UCMAKE_OVERRIDDEN_DEFAULT_ENT_BACKEND", "-DCMAKE_OVERRIDDEN_DEFAULT_ENT_BACKEND=1", "-DVH_GMP_ET"], [], []),
    "drv_mesh": (["drv_mesh.cc"], [], [], []),
    "drv_mesh_tsan": (["drv_mesh.cc", "perturb.cc"], TSAN, [], []),
    "drv_context": (["drv_context.cc"], [], [], []),
    "drv_context_tsan": (["drv_context.cc", "perturb.cc"], TSAN, [], []),
    "drv_cli": (["drv_cli.cc", "hw.cc"], [], [], []),
    "cli": ([REPO + "/cli/%s.cc" % n for n in ("main", "boolean_command", "convert_command", "defects_command")] + ["hw.cc"], [], ["-lboost_program_options"], [REPO + "/cli"]),
    "drv_soup": (["drv_soup.cc"], [], [], []),
    "drv_soup_tsan": (["drv_soup.cc", "perturb.cc"], TSAN, [], []),
}
TSAN_ENV = {"TSAN_OPTIONS": "exitcode=66 halt_on_error=0 report_signal_unsafe=0"}
def drivers(*names):
    jobs = []
    for n in names:
        srcs, flags, libs, extra = DRIVERS[n]
        jobs.append((n, [s if s.startswith("/") else os.path.join(VERIF, "harness", s) for s in srcs], list(flags), list(libs), list(extra)))
    r = compile_many(jobs)
    return r[names[0]] if len(names) == 1 else [r[n] for n in names]

class TlcResult:
    def __init__(self): self.ok = False; self.states = 0; self.distinct = 0; self.out = ""; self.accepted = False; self.rejected = None

def tlc(tla, cfg, workers=1, env=None, args=(), timeout=600, mem="3g", spec_dir=SPEC):
    r = TlcResult()
    md = tempfile.mkdtemp(prefix="vtlc.")
    try:
        e = dict(os.environ); e.update(env or {}); e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-Xmx" + mem, "-Xss128m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % (2 if workers == 1 else 8),
               "-Djava.io.tmpdir=" + md, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg] + list(args) + [tla]
        try: p = subprocess.run(cmd, cwd=spec_dir, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as t:
            r.out = (t.stdout or b"").decode(errors="replace") if isinstance(t.stdout, bytes) else (t.stdout or "")
            r.out += "\nTIMEOUT"; return r
        r.out = p.stdout + p.stderr
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
        if m: r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
        r.ok = "No error has been found" in r.out and p.returncode == 0
        m = re.search(r'"TRACE-ACCEPTED", (\d+)', r.out)
        if m: r.accepted = True
        m = re.search(r'"TRACE-REJECTED", (\d+)', r.out)
        if m: r.rejected = int(m.group(1))
        return r
    finally:
        shutil.rmtree(md, ignore_errors=True)

def tlc_generate(tla, cfg, num, depth, seed, tag, timeout=300, mem="2g", consts=None):
    """random simulation of a generator spec; returns the JSON values printed as 'TAG json'."""
    r = tlc(tla, cfg, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)], timeout=timeout, mem=mem)
    vals = []
    for line in r.out.splitlines():
        if line.startswith('"' + tag + " "):
            vals.append(json.loads(json.loads(line)[len(tag)+1:]))
    if not vals: raise CheckError("no behaviours generated by %s:\n%s" % (tla, r.out[-2000:]))
    return vals

class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.tmp = tempfile.mkdtemp(prefix="verif.%s." % pid)
        self.states = self.transitions = self.traces = 0
        self.cov = {"samples": []}
        self.assumptions = []
        self.violation = None
        self.findings = load_known(pid)
        self.seen_findings = set()
    @property
    def quick(self): return self.tier == "quick"
    def pick(self, q, t): return q if self.quick else t
    def elapsed(self): return time.time() - self.t0
    def path(self, name): return os.path.join(self.tmp, name)
    def log(self, *a): print(*a, flush=True)
    def sample(self, s, n=6):
        if len(self.cov["samples"]) < n: self.cov["samples"].append(s if len(str(s)) < 1500 else str(s)[:1500])
    def count(self, key, n=1): self.cov[key] = self.cov.get(key, 0) + n

    # ---- design models: independent of the code; a failure is a failure of the check ----
    def model(self, tla, cfg, workers=NCPU, timeout=800, mem="8g"):
        r = tlc(tla, cfg, workers=workers, timeout=timeout, mem=mem)
        if not r.ok: raise CheckError("model %s/%s failed:\n%s" % (tla, cfg, r.out[-3000:]))
        self.states += r.distinct; self.transitions += r.states
        self.cov.setdefault("models", {})[cfg] = {"distinct": r.distinct, "generated": r.states}
        return r
    # ---- driver ----
    def run(self, cmd, timeout=300, env=None, stdin=None, cwd=None):
        e = dict(os.environ); e.update(env or {})
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, env=e, input=stdin, cwd=cwd)
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            return "timeout", "", ""
    def trace(self, tla, cfg, trace, timeout=800, mem="3g", env=None):
        ee = {"TRACE_FILE": trace}; ee.update(env or {})
        r = tlc(tla, cfg, env=ee, timeout=timeout, mem=mem)
        if r.accepted:
            self.states += r.distinct; self.transitions += r.states
            return None
        # an observation of a shape that the specification cannot even evaluate (an index out of range, a missing field) is not accepted either
        if r.rejected is None and "evaluating the nested" in r.out and not re.search("OutOfMemory|StackOverflow|Malformed|IOException|No space left|TIMEOUT", r.out):
            n = [int(x) for x in re.findall(r"^State (\d+)", r.out, re.M)]
            r.rejected = max(n or [1])
        if r.rejected is None:
            i = r.out.find("Error:")
            if os.environ.get("VERIF_DEBUG"):
                open("/tmp/verif.tlc.out", "w").write(r.out); shutil.copy(trace, "/tmp/verif.trace")
            raise CheckError("trace validation of %s gave no verdict:\n%s\n...\n%s" % (trace, r.out[i:i + 1500], r.out[-300:]))
        return r.rejected
    def pmap(self, f, xs, n=NCPU):
        with concurrent.futures.ThreadPoolExecutor(n) as ex: return list(ex.map(f, xs))

    # ---- verdicts ----
    def keep(self, files, name="replay"):
        d = os.path.join(BUILD, "replay", self.pid); os.makedirs(d, exist_ok=True)
        dst = os.path.join(d, "%s.%d.%d" % (name, self.seed, os.getpid())); os.makedirs(dst, exist_ok=True)
        for f in files:
            if isinstance(f, tuple):
                with open(os.path.join(dst, f[0]), "w") as fh: fh.write(f[1])
            elif os.path.exists(f): shutil.copy(f, dst)
        return dst
    def violate(self, what, files=(), key=None):
        """record a confirmed violation (or a listed known finding)."""
        for k in self.findings:
            if key is not None and k["key"] == key:
                if key not in self.seen_findings:
                    self.seen_findings.add(key); print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
                return
        if self.violation is None:
            self.violation = (what, self.keep(list(files) + [("what.txt", what + "\n")]))
    def evidence(self):
        lvl = "model_checking"
        self.cov["states"] = self.states; self.cov["transitions"] = self.transitions
        self.cov["traces_validated_against_impl"] = self.traces
        if not self.cov["samples"]: self.cov["samples"] = ["none"]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": lvl, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": 1 if self.violation else 0}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1); f.write("\n")

def load_known(pid):
    r = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid: r.append({"key": m.group(2), "what": m.group(3)})
    except OSError: pass
    return r

def main(pid, body):
    c = Check(pid)
    code = 3
    try:
        try:
            body(c)
            code = 1 if c.violation else 0
        except CheckError as e:
            if c.violation: code = 1
            else: print("CHECK-ERROR: %s" % e, flush=True)
        except Exception:
            import traceback; traceback.print_exc()
            if c.violation: code = 1
        c.evidence()
        if c.violation:
            print("%s: %s" % (pid, c.violation[0]))
            print("VIOLATION property=%s replay=%s" % (pid, c.violation[1]), flush=True)
        elif code == 0:
            print("%s held: %d states, %d transitions, %d traces (%.0f s)" % (pid, c.states, c.transitions, c.traces, c.elapsed()), flush=True)
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
    sys.exit(code)
