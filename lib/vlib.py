"""Shared driver for the checks: build harnesses from /repo, run TLC, record evidence, report."""
import hashlib, json, os, random, re, shutil, subprocess, sys, time, threading, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
TLACM = "/opt/veriftools/tla/CommunityModules-deps.jar"
GUARD = "CHIAVDF_VERIF"


class MachineryError(Exception):
    pass


def sh(cmd, timeout=600, cwd=None, env=None, input=None, check=False):
    e = dict(os.environ)
    e.update({"LC_ALL": "C.UTF-8"})
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, input=input, timeout=timeout, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, errors="replace")
    except subprocess.TimeoutExpired as x:
        class R: pass
        r = R()
        r.returncode = -999
        r.stdout = (x.stdout or b"").decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        r.stderr = (x.stderr or b"").decode("utf8", "replace") if isinstance(x.stderr, bytes) else (x.stderr or "")
    if check and r.returncode != 0:
        raise MachineryError("command failed (%s): %s\n%s\n%s" % (r.returncode, " ".join(map(str, cmd)), r.stdout[-3000:], r.stderr[-5000:]))
    return r


class Check:
    def __init__(self, pid, level="model_checking"):
        self.id = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.work = os.path.join(os.environ.get("VERIF_WORK") or os.path.join(VERIF, ".work"), pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known_hit = []
        self.known = load_known(pid)
        self.lock = threading.Lock()
        self._java = None

    # ---------------------------------------------------------------- build
    def java(self):
        with self.lock:
            if self._java is None:
                out = os.path.join(self.work, "jc")
                os.makedirs(out)
                src = [os.path.join(SPEC, "java", f) for f in sorted(os.listdir(os.path.join(SPEC, "java"))) if f.endswith(".java")]
                sh(["javac", "-nowarn", "-d", out, "-cp", TLAJAR] + src, check=True)
                self._java = out
            return self._java

    def asm(self):
        """Generate and assemble the squaring kernels exactly as the CMake build does."""
        with self.lock:
            d = os.path.join(self.work, "asm")
            objs = [os.path.join(d, o) for o in ("asm_compiled.o", "avx2_asm_compiled.o", "avx512_asm_compiled.o", "lzcnt.o")]
            if os.path.isdir(d):
                return objs
            os.makedirs(d)
            sh(["g++", "-std=gnu++17", "-O0", "-w", "-no-pie", "-DVDF_MODE=0", "-DFAST_MACHINE=1", '-DCHIAVDF_VERSION="dev"',
                os.path.join(SRC, "compile_asm.cpp"), "-o", os.path.join(d, "compile_asm"), "-I", SRC, "-lgmpxx", "-lgmp", "-lpthread"],
               check=True, timeout=300)
            for a in ([], ["avx2"], ["avx512"]):
                sh([os.path.join(d, "compile_asm")] + a, cwd=d, check=True, timeout=120)
            for s in ("asm_compiled", "avx2_asm_compiled", "avx512_asm_compiled"):
                sh(["gcc", "-c", os.path.join(d, s + ".s"), "-o", os.path.join(d, s + ".o")], check=True)
            sh(["gcc", "-O2", "-c", os.path.join(SRC, "refcode/lzcnt.c"), "-o", os.path.join(d, "lzcnt.o")], check=True)
            return objs

    def lzcnt(self):
        o = os.path.join(self.work, "lzcnt_only.o")
        if not os.path.exists(o):
            sh(["gcc", "-O2", "-c", os.path.join(SRC, "refcode/lzcnt.c"), "-o", o], check=True)
        return o

    def build(self, name, sources, defs=(), opt="-O2", vdf=False, extra=(), libs=(), std="gnu++17", hooks=True, inc=()):
        """Compile a harness against /repo's working tree. vdf=True links the asm kernels."""
        out = os.path.join(self.work, name)
        cmd = ["g++", "-std=" + std, opt, "-g0", "-w", "-no-pie", "-DNDEBUG"]
        if hooks:
            cmd.append("-D" + GUARD + "=1")
        if vdf:
            cmd += ["-DVDF_MODE=0", "-DFAST_MACHINE=1"]
        cmd += ['-DCHIAVDF_VERSION="dev"'] + list(defs)
        for i in list(inc) + [SRC, HARN]:
            cmd += ["-I", i]
        srcs = [s if os.path.isabs(s) else os.path.join(HARN, s) for s in sources]
        objs = self.asm() if vdf else [self.lzcnt()]
        cmd += list(extra) + srcs + objs + ["-o", out] + list(libs) + ["-lgmpxx", "-lgmp", "-lpthread"]
        sh(cmd, check=True, timeout=600)
        return out

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, heap="4g", args=(), dfs=False, props=(), coverage=False):
        """Run TLC on spec/<module>.tla with the given cfg text. Returns a result object."""
        tag = "%s_%s" % (module, hashlib.sha1((cfg + json.dumps(env or {}, sort_keys=True) + str(args) + str(time.time())).encode()).hexdigest()[:10])
        d = os.path.join(self.work, "tlc_" + tag)
        os.makedirs(d)
        cf = os.path.join(d, module + ".cfg")
        open(cf, "w").write(cfg)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-DTLA-Library=" + SPEC]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += list(props)
        cmd += ["-cp", "%s:%s:%s" % (TLAJAR, TLACM, self.java()), "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
                "-metadir", os.path.join(d, "meta"), "-config", cf]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
        r = sh(cmd, timeout=timeout, cwd=d, env=env)
        out = r.stdout + r.stderr
        res = TlcResult()
        res.out = out
        res.rc = r.returncode
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        if m:
            res.generated = int(m[-1][0].replace(",", ""))
            res.distinct = int(m[-1][1].replace(",", ""))
        else:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            if m:
                res.generated = res.distinct = int(m[-1].replace(",", ""))
        res.ok = r.returncode == 0 and "No error has been found" in out or (r.returncode == 0 and "-simulate" in args)
        res.violated = re.findall(r"Error: Invariant (\S+) is violated", out) + re.findall(r"Error: Action property (\S+)", out)
        if "Temporal properties were violated" in out or re.search(r"Temporal property .* (is|was) violated", out):
            res.violated.append("temporal")
        if "Deadlock reached" in out:
            res.violated.append("deadlock")
        if re.search(r"[Pp]ostcondition", out) and "violated" in out or "is violated" in out and "POSTCONDITION" in out:
            res.violated.append("postcondition")
        res.prints = [l for l in out.splitlines() if l.startswith("<<") or l.startswith('"') or l.startswith("[")]
        with self.lock:
            self.cov["states"] += res.distinct
            self.cov["transitions"] += res.generated
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return res

    def model(self, module, cfg, **kw):
        """Exhaustive model check of a design model: any failure here is a machinery/design error."""
        r = self.tlc(module, cfg, **kw)
        if not r.ok:
            raise MachineryError("model %s does not check:\n%s" % (module, r.out[-4000:]))
        return r

    def validate(self, module, cfg, trace, env=None, timeout=600, n=1, **kw):
        """Validate a recorded ndjson trace against a Trace spec. The spec's POSTCONDITION prints
        <<"STUCK", l>> with l = number of the first unexplained line. Returns None or a reason."""
        e = {"TRACE": trace}
        e.update(env or {})
        def run():
            r = self.tlc(module, cfg, env=e, timeout=timeout, **kw)
            if r.ok:
                return None
            stuck = re.findall(r'"STUCK", (\d+)', r.out)
            if stuck:
                l = int(stuck[-1])
                lines = open(trace).read().splitlines()
                return "line %d not allowed by %s: %s" % (l, module, lines[l - 1][:1500] if l <= len(lines) else "<end>")
            if [v for v in r.violated if v not in ("postcondition", "deadlock")]:
                return "invariant %s violated in %s: %s" % (r.violated, module, r.out[-1500:])
            raise MachineryError("TLC failed on trace %s:\n%s" % (trace, r.out[-5000:]))
        bad = run()
        if bad is not None:
            again = run()           # a rejection counts only when it repeats
            if again is None:
                raise MachineryError("unrepeatable rejection: " + bad)
            return again
        with self.lock:
            self.cov["traces_validated_against_impl"] += n
        return None

    # ---------------------------------------------------------------- reporting
    def sample(self, s):
        if len(self.cov["samples"]) < 12:
            self.cov["samples"].append(s)

    def violate(self, what, key=None, data=None):
        """Report a violation; `key` identifies the failing input / history for known findings."""
        for k in self.known:
            if key is not None and k["key"] == key:
                if key not in self.known_hit:
                    self.known_hit.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.id, k["what"]))
                return
        p = os.path.join(self.work, "violation_%d.json" % (len(self.violations) + 1))
        json.dump({"property": self.id, "what": what, "key": key, "data": data, "seed": self.seed, "tier": self.tier}, open(p, "w"), indent=1, default=str)
        self.violations.append(p)
        if len(self.violations) <= 5:
            print("VIOLATION property=%s replay=%s" % (self.id, p))
            print("  " + str(what)[:1200])
            sys.stdout.flush()

    def finish(self):
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": dict(self.cov, **self.extra), "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        evd = os.environ.get("VERIF_WORK") or os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        p = os.path.join(evd, self.id + ".json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1, default=str)
        os.replace(p + ".tmp", p)
        if not self.violations:
            print("OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
                self.id, self.tier, self.cov["states"], self.cov["transitions"],
                self.cov["traces_validated_against_impl"], time.time() - self.t0))
            shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0


class TlcResult:
    def __init__(self):
        self.generated = self.distinct = 0
        self.ok = False
        self.violated = []
        self.out = ""
        self.prints = []


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                res.append({"key": m.group(2), "what": m.group(3).strip()})
    return res


def write_ndjson(path, events):
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")


def parallel(jobs, n=8):
    """Run thunks concurrently; return results, raising the first exception."""
    with ThreadPoolExecutor(max_workers=n) as ex:
        fs = [ex.submit(j) for j in jobs]
        return [f.result() for f in fs]


def forkmap(fn, args, n=8):
    """Like map, but each call runs in a forked child (python-heavy input generation); results are pickled back."""
    import pickle
    sem = threading.Semaphore(n)
    res = [None] * len(args)
    err = []
    def one(i):
        with sem:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    try: out = ("ok", fn(args[i]))
                    except BaseException as e: out = ("err", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))
                    with os.fdopen(w, "wb") as f: pickle.dump(out, f)
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r, "rb") as f: data = f.read()
            os.waitpid(pid, 0)
            out = pickle.loads(data) if data else ("err", "child died")
            if out[0] == "ok": res[i] = out[1]
            else: err.append(out[1])
    ts = [threading.Thread(target=one, args=(i,)) for i in range(len(args))]
    for t in ts: t.start()
    for t in ts: t.join()
    if err: raise MachineryError("generator failed: " + err[0])
    return res


def hx(n):
    return ("-" if n < 0 else "") + format(abs(n), "x")
