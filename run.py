#!/usr/bin/env python3
"""Builds the monitors of one property against /repo's working tree, drives the workloads and decides.

  run.py <property> [quick|thorough]          exit 0: held on everything explored; 1: VIOLATION; 2: no answer
  run.py <property> --replay FILE             rebuild and run only the recorded case again
"""
import glob, hashlib, importlib.util, json, os, re, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VT_REPO", "/repo")           # development only: another copy of the repository
OUT = os.environ.get("VT_OUT", VERIF)               # development only: where evidence and replays go
H = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "tools"))
NCPU = int(os.environ.get("VT_JOBS", "0")) or os.cpu_count() or 8
from checks import CHECKS                           # the table of checks: files, builds, case counts, required events

COMMON = ["-std=c++17", "-include", "cstdint", "-w", "-g1", "-pthread", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + H]
BUILDS = {
    # address and undefined-behaviour sanitizers, checked standard library, patterned uninitialised locals
    "gcc-asan": ("g++", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"], ["-fsanitize=address,undefined"]),
    # nothing inlined: every use of a variable of a function that has returned is seen
    "gcc-asan-O0": ("g++", ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"], ["-fsanitize=address,undefined"]),
    "clang-asan": ("clang++", ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fsanitize-address-use-after-scope", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"], ["-fsanitize=address,undefined"]),
    "gcc-tsan": ("g++", ["-O1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "gcc-plain": ("g++", ["-O1"], []),              # for valgrind
    "gcc-O2": ("g++", ["-O2"], []),
    "clang-O2": ("clang++", ["-O2"], []),
}
ENV = dict(os.environ, LC_ALL="C",
    ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=4096:handle_abort=1",
    UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99",
    TSAN_OPTIONS="halt_on_error=1:exitcode=66:second_deadlock_stack=1",
    LSAN_OPTIONS="exitcode=98")

class NoAnswer(Exception): pass

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed, self.cfg = prop, tier, seed, CHECKS[prop]
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".build", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True); os.makedirs(self.work)
        self.cases = 0; self.counters = {}; self.scenarios = {}; self.samples = []; self.sigs = set()
        self.viol = []; self.builds = {}; self.notes = []; self.lock = threading.Lock(); self.procs = set()
        self.known = load_known(prop)

    # ---------------------------------------------------------------- building
    def parts(self, path):
        m = re.search(r"VT_PARTS (\d+)", open(path).read(4000)); return int(m.group(1)) if m else 1

    def sources(self):
        src = [f for f in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)) if os.path.basename(f) not in ("main.cpp", "rvalue_detection.cpp")]
        return [f for f in src if not re.search(r"\bint\s+main\s*\(", open(f, errors="replace").read())]

    def build(self, variants, files, gen=None):
        """Compile all variants; returns {variant: binary}"""
        files = [os.path.join(H, f) for f in files]
        for name, text in (gen or {}).items():
            p = os.path.join(self.work, name); open(p, "w").write(text); files.append(p)
        jobs, objs = [], {}
        for v in variants:
            cc, cf, lf = BUILDS[v]; objs[v] = []
            for f in [H + "/main.cpp"] + files + self.sources():
                n = self.parts(f) if not f.startswith(REPO) else 1
                for p in range(n):
                    o = os.path.join(self.work, "%s.%s.%d.o" % (v, hashlib.md5(f.encode()).hexdigest()[:6] + os.path.basename(f), p)); objs[v].append(o)
                    jobs.append([cc] + COMMON + cf + ["-DVT_PART=%d" % p, "-c", f, "-o", o])
        # the big ones first
        jobs.sort(key=lambda j: -os.path.getsize(j[-3]))
        def one(j):
            r = subprocess.run(j, capture_output=True, text=True, errors="replace", env=ENV)
            return None if r.returncode == 0 else (j[-3], r.stderr)
        with ThreadPoolExecutor(NCPU) as ex: bad = [b for b in ex.map(one, jobs) if b]
        if bad:
            for f, e in bad[:3]: sys.stderr.write("cannot compile %s:\n%s\n" % (f, "\n".join([l for l in e.splitlines() if "error" in l or "required from" in l][:20])))
            raise NoAnswer("build failed")
        bins = {}
        for v in variants:
            cc, cf, lf = BUILDS[v]; bins[v] = os.path.join(self.work, "bin." + v)
            r = subprocess.run([cc] + lf + objs[v] + ["-o", bins[v], "-pthread"], capture_output=True, text=True)
            if r.returncode: sys.stderr.write(r.stderr[-4000:]); raise NoAnswer("link failed")
            for o in objs[v]: os.unlink(o)
        return bins

    # ---------------------------------------------------------------- running
    def spawn(self, cmd, timeout, env=None, cwd=None, crumb=None, stall=None):
        """crumb: file naming the case that is running; a case that runs for longer than stall ends the run like a timeout"""
        with open(os.path.join(self.work, "err.%d" % threading.get_ident()), "w+", errors="replace") as err:
            p = subprocess.Popen(cmd, stdout=err, stderr=err, env=env or ENV, cwd=cwd, start_new_session=True)
            with self.lock: self.procs.add(p)
            try:
                if not crumb: rc = p.wait(timeout)
                else:
                    t0 = since = time.time(); seen = b""; rc = None
                    while rc is None:
                        try: rc = p.wait(min(5, timeout)); break
                        except subprocess.TimeoutExpired: pass
                        try: now = open(crumb, "rb").read()
                        except OSError: now = b""
                        if now != seen: seen, since = now, time.time()
                        if time.time() - t0 > timeout or (seen and time.time() - since > stall): break
            except subprocess.TimeoutExpired: rc = None
            finally:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait()
                with self.lock: self.procs.discard(p)
            err.seek(0); return rc, err.read()[-20000:]

    def shard(self, stage, bin_, k, first, n, extra, timeout, wrap, attempt=0):
        rep = os.path.join(self.work, "rep.%s.%d.%d" % (stage, k, attempt))
        cmd = wrap + [bin_, "--seed", str(self.seed), "--first", str(first), "--cases", str(n), "--report", rep] + extra
        env = dict(ENV)
        if "leak" in stage: env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")
        slow = 10 if "valgrind" in wrap else 1
        stall = (100 if self.tier == "quick" else 600) * max(slow, 2 if stage.split("-")[-1] in ("giant", "huge", "long") else 1)
        rc, err = self.spawn(cmd, timeout, env, crumb=rep + ".crumb", stall=stall)
        if "unexpected memory mapping" in err and not wrap[:1] == ["setarch"]:
            return self.shard(stage, bin_, k, first, n, extra, timeout, ["setarch", "-R"] + wrap, attempt + 1)
        crumb = ""
        try: crumb = open(rep + ".crumb").read().strip()
        except OSError: pass
        m = re.match(r"(-?\d+)\s+(\S+)", crumb); case, scn = (int(m.group(1)), m.group(2)) if m else (None, "?")
        done = self.absorb(rep, stage, extra)
        shutil.rmtree(rep + ".scratch", ignore_errors=True)
        if rc in (0, 10) and done: return
        if rc is None:
            if case is None or case < 0: raise NoAnswer("run did not start in time")
            # a hang has to show again, alone, before it counts
            rc2, err2 = self.spawn(wrap + [bin_, "--seed", str(self.seed), "--first", str(case), "--cases", "1", "--report", rep + ".again"] + extra, 120 * slow, env)
            if rc2 is None: self.violation("hang:" + scn, "case %d of %s does not end" % (case, scn), scn, case, stage, extra); return
            if rc2 not in (0, 10): self.crash(rc2, err2, scn, case, stage, extra, rep); return
            left = first + n - case - 1
            if attempt < 3 and left > 0 and time.time() - self.t0 < 500 * (20 if self.tier == "thorough" else 1): return self.shard(stage, bin_, k, case + 1, left, extra, timeout, wrap, attempt + 1)
            raise NoAnswer("run timed out (machine too slow?)")
        self.crash(rc, err, scn, case, stage, extra, rep)

    def crash(self, rc, err, scn, case, stage, extra, rep):
        key, msg = classify(rc, err)
        if key.startswith("leak") : case = None
        if key == "killed": raise NoAnswer("a run was killed (out of memory?)\n" + err[-2000:])
        self.violation(key + ":" + scn if case is not None else key, msg, scn, case, stage, extra, err)

    def absorb(self, rep, stage, extra):
        done = False
        try: lines = open(rep).read().splitlines()
        except OSError: return False
        for l in lines:
            try: d = json.loads(l)
            except ValueError: continue
            if "fail" in d: self.violation(d["fail"], d["msg"], d["scenario"], d["case"], stage, extra)
            elif "summary" in d:
                done = True
                with self.lock:
                    self.cases += d["cases"]
                    for k, v in d["counters"].items(): self.counters[k] = self.counters.get(k, 0) + v
                    for k, v in d["scenarios"].items(): self.scenarios[k] = self.scenarios.get(k, 0) + v
                    for s in d["samples"]:
                        if len(self.samples) < 24 and s.split(":")[0] not in [x.split(":")[0] for x in self.samples]: self.samples.append(s)
        try:
            b = open(rep + ".sig", "rb").read()
            with self.lock: self.sigs.update(b[i:i + 8] for i in range(0, len(b), 8))
        except OSError: pass
        return done

    def violation(self, key, msg, scn, case, stage, extra, log=""):
        with self.lock: self.viol.append(dict(property=self.prop, key=key, message=msg, scenario=scn, case=case, stage=stage, seed=self.seed, tier=self.tier, args=extra, log=log[-12000:]))

    def drive(self, stage, bin_, cases, extra=(), shards=None, timeout=None, wrap=()):
        """cases: in total, split over the shards"""
        shards = min(shards or NCPU, max(1, cases)); per = max(1, cases // shards); first0 = self.cfg.get("first", {}).get(stage, 0)
        extra = list(extra) + (["--thorough"] if self.tier == "thorough" else [])
        if "valgrind" in stage: extra.append("--valgrind")
        timeout = timeout or (300 if self.tier == "quick" else 6000)
        c0, t = self.cases, time.time()
        with ThreadPoolExecutor(NCPU) as ex:
            for f in [ex.submit(self.shard, stage, bin_, k, first0 + k * per, per, extra, timeout, list(wrap)) for k in range(shards)]: f.result()
        self.builds[stage] = dict(executions=self.cases - c0, wall_s=round(time.time() - t, 1))

    # ---------------------------------------------------------------- verdict
    def finish(self):
        rc = 0; shown = set(); new = []
        for v in self.viol:
            k = next((k for k in self.known if k["key"] == v["key"]), None)
            if k:
                if v["key"] not in shown: print("KNOWN-FINDING: property=%s %s" % (self.prop, k["text"]))
            elif v["key"] not in shown: new.append(v)
            shown.add(v["key"])
        os.makedirs(OUT + "/replays", exist_ok=True)
        for i, v in enumerate(new[:10]):
            path = os.path.join(OUT, "replays", "%s-%s-%d.json" % (self.prop, self.tier, i))
            json.dump(v, open(path, "w"), indent=1)
            print("%s: %s" % (v["key"], v["message"][:600])); print("VIOLATION property=%s replay=%s" % (self.prop, path)); rc = 1
        missing = []
        for k, n in self.cfg.get("need", {}).items():
            if self.counters.get(k, 0) < n: missing.append("%s: %d < %d" % (k, self.counters.get(k, 0), n))
        if self.cases < self.cfg.get("min_cases", 1): missing.append("only %d executions" % self.cases)
        if len(self.sigs) < self.cfg.get("min_distinct", 10): missing.append("only %d distinct cases" % len(self.sigs))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.cfg["level"],
            coverage=dict(evaluations=self.cases, distinct_nontrivial=len(self.sigs), rule=self.cfg["rule"], samples=self.samples or ["none"],
                events_observed=self.counters, executions_per_scenario=self.scenarios, runs=self.builds, inconclusive=missing, notes=self.notes),
            assumptions=self.cfg.get("assumptions", []), wall_s=round(time.time() - self.t0, 1), violations=len(new))
        os.makedirs(OUT + "/evidence", exist_ok=True)
        json.dump(ev, open(os.path.join(OUT, "evidence", self.prop + ".json"), "w"), indent=1)
        if rc == 0 and missing: print("no answer: the monitors observed too little: " + "; ".join(missing)); rc = 2
        print("%s %s seed %d: %d executions, %d distinct, %d monitor checks, %d violations, %.0f s" % (self.prop, self.tier, self.seed, self.cases, len(self.sigs), self.counters.get("checks", 0), len(new), time.time() - self.t0))
        return rc

    def close(self):
        for p in list(self.procs):
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
        shutil.rmtree(self.work, ignore_errors=True)

def classify(rc, err):
    """(key, message) for a process that did not end normally"""
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([^\n]*)", err)
    if "LeakSanitizer" in err: return "leak", "memory leaked: " + (m.group(2) if m else "")
    ub = re.search(r"^\S*?([^/\s]+:\d+):\d+: runtime error: ([^\n]*)", err, re.M)
    if ub: return "ubsan", "undefined behaviour: " + ub.group(2) + " at " + ub.group(1)
    if m:
        kind = m.group(2).split()[0] if m.group(1) != "ThreadSanitizer" else re.sub(r" /\S*/", " ", m.group(2))[:60]
        return ("tsan:" if m.group(1) == "ThreadSanitizer" else "asan:") + kind.split(" (")[0], m.group(1) + ": " + m.group(2)
    if rc == 97: return "valgrind", "valgrind: " + first_vg(err)
    a = re.search(r"Assertion [`']([^\n]*)' failed", err)
    if a: return "assert", "assertion failed: " + a.group(1)
    t = re.search(r"terminate called[^\n]*(\n\s+what\(\):[^\n]*)?", err)
    if t: return "terminate", t.group(0)
    if rc == -9: return "killed", "killed"
    return "crash", "ended with status %s: %s" % (rc, err[-300:])

def first_vg(err):
    ls = [re.sub(r"^==\d+==\s?", "", l) for l in err.splitlines() if l.startswith("==")]
    for i, l in enumerate(ls):
        if re.search(r"Invalid|uninitialised|lost in|Mismatched|overlap", l): return " | ".join(x.strip() for x in ls[i:i + 5])
    return "error"

def load_known(prop):
    res = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop: res.append(dict(key=m.group(2), text=m.group(3)))
    except OSError: pass
    return res

VALGRIND = ["valgrind", "-q", "--error-exitcode=97", "--leak-check=full", "--errors-for-leak-kinds=definite", "--show-leak-kinds=definite", "--num-callers=25"]

def main():
    prop = sys.argv[1]; tier = "quick"; replay = None
    for i, a in enumerate(sys.argv[2:], 2):
        if a in ("quick", "thorough"): tier = a
        if a == "--replay": replay = sys.argv[i + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1) & 0xffffffff
    if replay:
        r = json.load(open(replay)); tier, seed = r["tier"], r["seed"]
    R = Run(prop, tier, seed)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    try:
        cfg = R.cfg
        if "module" in cfg:
            return importlib.import_module(cfg["module"]).check(R, r if replay else None, sys.modules[__name__])
        stages = cfg[tier]
        if replay: stages = [s for s in stages if s["stage"] == r["stage"]]
        gen = cfg["gen"](R) if "gen" in cfg else None
        bins = {}
        # group the stages by the files they need, to build each variant once
        for s in stages: s.setdefault("files", cfg["files"])
        groups = {}
        for s in stages: groups.setdefault((tuple(s["files"])), set()).add(s["build"])
        for fs, vs in groups.items():
            sub = {}
            sub = R.build(sorted(vs), list(fs), gen)
            for v, b in sub.items():
                nb = b + "." + hashlib.md5(repr(fs).encode()).hexdigest()[:6]; os.rename(b, nb); bins[(fs, v)] = nb
        for s in stages:
            extra = s.get("args", ["--prop", prop]); b = bins[(tuple(s["files"]), s["build"])]
            wrap = VALGRIND if "valgrind" in s["stage"] else []
            if replay:
                if r["case"] is None: R.drive(s["stage"], b, s["cases"], extra, wrap=wrap)
                else: R.shard(s["stage"], b, 0, r["case"], 1, r["args"], 1200, list(wrap))
                continue
            R.drive(s["stage"], b, s["cases"], extra, shards=s.get("shards"), wrap=wrap)
            if any(v["key"] not in [k["key"] for k in R.known] for v in R.viol): break      # the verdict is settled
        if replay:
            for v in R.viol: print("%s: %s\n%s" % (v["key"], v["message"], v["log"][-3000:]))
            print("replayed: %d violations" % len(R.viol)); return 1 if R.viol else 0
        return R.finish()
    except NoAnswer as e:
        if R.viol and not replay: return max(1, R.finish())
        print("no answer: %s" % e); return 2
    finally: R.close()

if __name__ == "__main__": sys.exit(main())
