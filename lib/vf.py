"""Common runner: compile driver translation units against /repo's current headers, normalise their LLVM IR
with tools/irx, run one check, write evidence and print the verdict."""
import concurrent.futures, json, os, re, subprocess, sys, time, hashlib, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "include")
BUILD = os.path.join(VERIF, "build")
WORK = os.environ.get("VERIF_WORK", BUILD)
EVID = os.environ.get("VERIF_EVID") or (os.path.join(VERIF, "evidence") if WORK == BUILD else WORK)
PIPE = open(os.path.join(VERIF, "tools", "pipeline.txt")).read().strip()
OPAQUE = [l.strip() for l in open(os.path.join(VERIF, "tools", "opaque_xsimd.txt")) if l.strip() and l[0] != "#"]
CLANG = "clang++"
BASEFLAGS = ["-std=c++20", "-I" + INC, "-isystem", "/usr/include/eigen3", "-w"]

def llvm_dirs():
    for v in ("/usr/lib/llvm-18",):
        if os.path.isdir(v): return v
    return "/usr/lib/llvm-18"

def build_irx():
    src = os.path.join(VERIF, "tools", "irx.cpp")
    out = os.path.join(BUILD, "irx")
    os.makedirs(BUILD, exist_ok=True)
    stamp = out + ".sha"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h: return out
    d = llvm_dirs()
    tmp = out + ".tmp%d" % os.getpid()
    subprocess.run([CLANG, "-std=c++20", "-O1", "-I" + d + "/include", "-fno-rtti", "-w", src, "-o", tmp, "-L" + d + "/lib", "-Wl,-rpath," + d + "/lib", "-lLLVM-18"], check=True)
    os.replace(tmp, out)
    open(stamp, "w").write(h)
    return out

class CompileError(Exception):
    def __init__(self, name, diag):
        self.name = name; self.diag = diag
        super().__init__(name + ": " + diag[:2000])

class Check:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier
        self.thorough = tier == "thorough"
        self.violations = []
        self.known_hits = []
        self.cov = {}
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.samples = []
        self.t0 = time.time()
        self.work = os.path.join(WORK, pid)
        os.makedirs(self.work, exist_ok=True)
        self.functions = set()
        self.lines = set()
    # -- results -------------------------------------------------------------------------------
    def ok(self, n=1, sample=None):
        self.obligations += n; self.discharged += n
        if sample and len(self.samples) < 12: self.samples.append(sample)
    def bad(self, key, what, where="", detail=None):
        """key: stable identification of the failing construct (entry/function/call site)"""
        self.obligations += 1
        self.violations.append({"key": key, "what": what, "where": where, "detail": detail})
    def skip(self, key, why):
        self.obligations += 1
        self.undecided.append({"key": key, "why": why})
    def cover(self, fn):
        """record the header locations an analysed entry function consists of"""
        for i in fn.all():
            for e in i.d.get("loc", []):
                f = e.get("f", "")
                if "include/dspbb/" in f:
                    self.lines.add((f[f.find("include/dspbb/"):], e["l"]))
                    self.functions.add((f[f.find("include/dspbb/"):], e.get("s", "")))
    # -- compilation ---------------------------------------------------------------------------
    def ir(self, name, src, opaque=(), xopaque=True, flags=(), passes=None, keep=(), entry="^e_", noinline=False, extra=()):
        import ir
        if name in self.__dict__.setdefault("_drivers", set()): raise RuntimeError("driver %s is compiled twice" % name)
        self._drivers.add(name)
        cpp = os.path.join(self.work, name + ".cpp")
        open(cpp, "w").write(src)
        ll = os.path.join(self.work, name + ".ll")
        cmd = [CLANG] + BASEFLAGS + ["-O1", "-Xclang", "-disable-llvm-passes", "-DNDEBUG", "-fcx-limited-range", "-gline-tables-only", "-ferror-limit=5"] + list(flags) + ["-S", "-emit-llvm", cpp, "-o", ll]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0: raise CompileError(name, p.stdout)
        js = os.path.join(self.work, name + ".json")
        cmd = [os.path.join(BUILD, "irx"), "--in", ll, "--out", js, "--ll", os.path.join(self.work, name + ".opt.ll"), "--passes", passes or PIPE, "--entry", entry]
        for o in (OPAQUE if xopaque else []): cmd += ["--opaque", o]
        for o in opaque: cmd += ["--opaque", o]
        for o in keep: cmd += ["--keep-body", o]
        if noinline: cmd += ["--no-inline"]
        cmd += list(extra)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0: raise RuntimeError("irx failed on %s: %s" % (name, p.stdout[-2000:]))
        return ir.Mod(js)
    def syntax(self, name, src, flags=()):
        """(compiles?, diagnostics)"""
        cpp = os.path.join(self.work, name + ".cpp")
        open(cpp, "w").write(src)
        p = subprocess.run([CLANG] + BASEFLAGS + ["-fsyntax-only", "-ferror-limit=0", "-fno-caret-diagnostics", "-ftemplate-backtrace-limit=4"] + list(flags) + [cpp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode == 0, p.stdout
    def parallel(self, jobs):
        """jobs: list of (callable, args); returns results in order (exceptions are returned)"""
        def run(j):
            try: return j[0](*j[1:])
            except Exception as e: return e
        with concurrent.futures.ThreadPoolExecutor(8) as ex: return list(ex.map(run, jobs))

    def each(self, units, limit=240):
        """runs the callables (which report to this object) in forked workers; a unit that fails to finish within its
        time or breaks internally counts as undecided"""
        import pickle, signal, threading
        W = min(int(os.environ.get("VERIF_JOBS", "8")), max(1, len(units)))
        class Late(Exception): pass
        def child(k, fd):
            def late(*_): raise Late()
            signal.signal(signal.SIGALRM, late)
            out = []
            for n in range(k, len(units), W):
                self.violations = []; self.obligations = self.discharged = 0; self.undecided = []; self.samples = []
                self.functions = set(); self.lines = set()
                signal.alarm(limit)
                try: units[n]()
                except Late: self.violations = []; self.skip("unit %d" % n, "analysis time limit")
                except Exception: self.skip("unit %d" % n, "internal: " + traceback.format_exc()[-600:])
                signal.alarm(0)
                out.append((n, self.obligations, self.discharged, self.violations, self.undecided, self.samples, self.functions, self.lines))
            with os.fdopen(fd, "wb") as f: pickle.dump(out, f)
        sys.stdout.flush(); sys.stderr.flush()
        kids, res = [], []
        for k in range(W):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r); sys.setrecursionlimit(20000); child(k, w); code = 0
                except BaseException: traceback.print_exc()
                finally: os._exit(code)
            os.close(w); kids.append((pid, r, k))
        def read(r, k):
            with os.fdopen(r, "rb") as f: d = f.read()
            try: res.extend(pickle.loads(d))
            except Exception: res.append((k, 1, 0, [], [{"key": "worker %d" % k, "why": "analysis worker ended early"}], [], set(), set()))
        ts = [threading.Thread(target=read, args=(r, k)) for _, r, k in kids]
        for t in ts: t.start()
        for t in ts: t.join()
        for pid, _, _ in kids: os.waitpid(pid, 0)
        for n, o, d, v, u, sm, fn, ln in sorted(res, key=lambda x: x[0]):
            self.obligations += o; self.discharged += d; self.violations += v; self.undecided += u
            self.samples = (self.samples + sm)[:12]; self.functions |= fn; self.lines |= ln

def known(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"): continue
            d = json.loads(l)
            if d["property"] == pid: out.append(d)
    return out

def first_errors(diag, n=3):
    e = [l for l in diag.splitlines() if ": error:" in l or "fatal error" in l]
    return [l.replace(REPO + "/", "") for l in e[:n]]

def main(pid, run, rule, level="other", extra_cov=None):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    if "--quick" in sys.argv: tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Check(pid, tier)
    broken = None
    try:
        build_irx()
        run(c)
    except CompileError as e:
        errs = first_errors(e.diag)
        c.bad("compile:" + e.name, "public API use in driver '%s' no longer compiles" % e.name, errs[0] if errs else "", e.diag[:4000])
    except Exception:
        broken = traceback.format_exc()
    kn = known(pid)
    fresh = []
    for v in c.violations:
        k = next((k for k in kn if k["key"] == v["key"]), None)
        if k: c.known_hits.append(k)
        else: fresh.append(v)
    seen = set()
    for k in c.known_hits:
        if k["key"] in seen: continue
        seen.add(k["key"])
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    cov = {"explanation": rule, "obligations": c.obligations, "discharged": c.discharged,
           "undecided": len(c.undecided), "undecided_list": c.undecided[:200], "known_findings": sorted(seen),
           "functions_analysed": len(c.functions), "source_lines_analysed": len(c.lines),
           "functions": sorted("%s: %s" % f for f in c.functions)[:400], "samples": c.samples}
    cov.update(c.cov)
    if extra_cov: cov.update(extra_cov)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - c.t0, 3), "violations": len(fresh)}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    if broken and not fresh:
        sys.stderr.write(broken)
        sys.exit(2)
    if fresh:
        rep = os.path.join(WORK, "replay")
        os.makedirs(rep, exist_ok=True)
        path = os.path.join(rep, pid + ".json")
        json.dump(fresh, open(path, "w"), indent=1)
        for v in fresh[:20]:
            print("VIOLATION property=%s replay=%s %s | %s | at %s" % (pid, path, v["key"], v["what"], v["where"]))
        if len(fresh) > 20: print("... %d further violations in %s" % (len(fresh) - 20, path))
        sys.exit(1)
    print("%s: held on all %d obligations (%d undecided), %.1fs" % (pid, c.discharged, len(c.undecided), time.time() - c.t0))
    sys.exit(0)
