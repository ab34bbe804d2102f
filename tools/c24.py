"""C24: the real program, built from /repo, run in scratch directories on generated data sets."""
import json, os, random, re, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

def write_set(d, which, n, h, w, rnd, mode, label):
    img = bytearray(struct.pack(">4i", 2051, n, h, w)); lab = bytearray(struct.pack(">2i", 2049, n))
    for i in range(n):
        c = label if label is not None else rnd.randrange(10); lab.append(c)
        if mode == "noise": img += bytes(rnd.randrange(256) for _ in range(h * w))
        else: img += bytes(min(255, max(0, (200 if (x * 10 // w) == c or (mode == "bands" and (y * 10 // h) == c) else 30) + rnd.randrange(-29, 30))) for y in range(h) for x in range(w))
    open(os.path.join(d, "MNIST %s Images.ubyte-img" % which), "wb").write(img)
    open(os.path.join(d, "MNIST %s Labels.ubyte-label" % which), "wb").write(lab)

def numbers(path): return [float(x) for x in re.findall(r"-?\d+\.\d+", open(path).read())]

def check(R, replay, M):
    """M: the driver module"""
    tier = R.cfg[R.tier]; H = M.H; W = R.work
    jobs = []
    def cc(cmd):
        r = subprocess.run(cmd, capture_output=True, text=True, env=M.ENV)
        if r.returncode: sys.stderr.write(r.stderr[-3000:]); raise M.NoAnswer("build failed")
    stub = os.path.join(W, "rand.o"); cc(["g++", "-O1", "-c", H + "/c24/fixedrand.cpp", "-o", stub])
    bins = {}; src = [M.REPO + "/src/main.cpp"] + R.sources()
    def compile_one(a): cc(a)
    objs = {}
    for v in tier["builds"]:
        c, cf, lf = M.BUILDS[v]; objs[v] = []
        for i, f in enumerate(src):
            o = os.path.join(W, "%s.%d.o" % (v, i)); objs[v].append(o); jobs.append([c] + M.COMMON + cf + ['-DDATA_DIR="data"', "-c", f, "-o", o])
    refo = os.path.join(W, "ref.o"); jobs.append(["g++"] + M.COMMON + ["-O2", "-c", H + "/c24/ref.cpp", "-o", refo])
    reflib = []
    for i, f in enumerate(R.sources()): o = os.path.join(W, "ref.%d.o" % i); reflib.append(o); jobs.append(["g++"] + M.COMMON + ["-O1", "-c", f, "-o", o])
    with ThreadPoolExecutor(M.NCPU) as ex: list(ex.map(compile_one, jobs))
    for v in tier["builds"]:
        c, cf, lf = M.BUILDS[v]; bins[v] = os.path.join(W, "main." + v); cc([c] + lf + objs[v] + [stub, "-o", bins[v], "-pthread"])
    ref = os.path.join(W, "ref"); cc(["g++", refo] + reflib + ["-o", ref, "-pthread"])

    def run(v, d, name, threads, timeout=400, top=False):
        env = dict(M.ENV, VT_THREADS=str(threads), **({"VT_RAND_TOP": "1"} if top else {})); cmd = [bins[v]] + ([name] if name else [])
        p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True)
        with R.lock: R.procs.add(p)
        try: out, _ = p.communicate(timeout=timeout); rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill(); out, _ = p.communicate(); rc = None
        with R.lock: R.procs.discard(p)
        out = out.decode(errors="replace")
        if "unexpected memory mapping" in out and cmd[0] != "setarch":
            r = subprocess.run(["setarch", "-R"] + cmd, cwd=d, capture_output=True, env=env, timeout=timeout); rc, out = r.returncode, r.stdout.decode(errors="replace") + r.stderr.decode(errors="replace")
        return rc, out

    def case(i):
        rnd = random.Random(R.seed * 1000003 + i); v = tier["builds"][i % len(tier["builds"])]
        d = os.path.join(W, "case%d" % i); os.makedirs(d + "/data")
        h, w = rnd.choice([(12, 12), (12, 12), (14, 12), (12, 16), (16, 17), (28, 28)]) if i % 7 else (28, 28)
        n = rnd.choice([2, 3, 33, 34, 32, 40, 65, 97, rnd.randrange(2, tier["max_train"])]); m = rnd.choice([1, 2, 7, 10, 31, 65, 97, 129, 64, rnd.randrange(1, 60)])
        mode = rnd.choice(["noise", "bands", "stripes"]); label = rnd.randrange(10) if rnd.random() < 0.3 else None
        th = [1, 2, 3, 5, 8, 13, 33, 48, 0]; t1 = rnd.choice(th); name = rnd.choice(["model", "my model", "a.b", "x_1"]); top = i // 4 % 3 == 2
        desc = "%d training and %d test images of %dx%d (%s%s), %d threads, %s" % (n, m, h, w, mode, ", all labelled %d" % label if label is not None else "", t1, v + (", extreme random numbers" if top else ""))
        def bad(key, msg, log=""): R.violation(key, msg + " with " + desc, "c24_program", i, v, [], log)
        def cnt(k, c=1):
            with R.lock: R.counters[k] = R.counters.get(k, 0) + c
        def ok(cond, key, msg, log=""):
            cnt("checks")
            if not cond: bad(key, msg, log)
            return cond
        try:
            write_set(d + "/data", "Train", n, h, w, rnd, mode, label); write_set(d + "/data", "Test", m, h, w, rnd, mode, None)
            before = {f: open(d + "/data/" + f, "rb").read() for f in os.listdir(d + "/data")}
            save = rnd.random() < 0.9
            rc, out = run(v, d, name if save else None, t1, top=top)
            if rc is None:
                rc, out = run(v, d, name if save else None, t1, 800, top)
                if rc is None: bad("hang", "the program does not end"); return
            with R.lock: R.cases += 1; R.sigs.add(desc); R.scenarios["c24_program"] = R.scenarios.get("c24_program", 0) + 1
            if len(R.samples) < 12: R.samples.append("c24_program: " + desc)
            if rc != 0:
                key, msg = M.classify(rc, out)
                if key == "killed": raise M.NoAnswer("a run was killed")
                bad(key + ":program", "the program ended with status %s (%s)" % (rc, msg), out); return
            ep = re.findall(r"Epoch (\d+): Accuracy was (\S+?)%", out)
            ok([e for e, _ in ep] == ["0", "1"], "epochs", "epoch reports: %s" % ep, out)
            va = re.findall(r"Validation accuracy was (\S+?)%", out)
            if not ok(len(va) == 1, "validation-line", "validation reports: %s" % va, out): return
            files = sorted(set(os.listdir(d + "/data")) - set(before)); other = [f for f in os.listdir(d) if f != "data"]
            ok(all(open(d + "/data/" + f, "rb").read() == b for f, b in before.items()), "data-changed", "the data files were changed")
            if not save:
                ok(files == [] and other == [], "saved-unasked", "files were written without being asked for: %s" % (files + other)); cnt("runs without saving"); return
            if not ok(files == [name + ".model_data"] and other == [], "saved-name", "instead of %s.model_data there is %s" % (name, files + other), out): return
            model = d + "/data/" + files[0]
            # the initial model: the same random numbers, no training sample, the same test files
            d0 = d + "/init"; os.makedirs(d0 + "/data")
            for f in before: shutil.copy(d + "/data/" + f, d0 + "/data")
            write_set(d0 + "/data", "Train", 1, h, w, rnd, mode, label)
            inits = []
            for k in range(2):
                rc0, o0 = run(v, d0, "init%d" % k, 4, top=top); inits.append(d0 + "/data/init%d.model_data" % k)
                if rc0 != 0: bad("program-one-image", "the program ended with status %s on one training image" % rc0, o0); return
            fixed = open(inits[0]).read() == open(inits[1]).read()
            args = [ref, d + "/data", model] + ([inits[0]] if fixed else [])
            rr = dict(l.split() for l in subprocess.run(args, capture_output=True, text=True, timeout=900).stdout.splitlines())
            if not ok("unreadable" not in rr and rr.get("layers") != "0", "saved-content", "the saved model is incomplete"): return
            ok(rr["labels"] == "1", "saved-labels", "the saved model has other labels than the digits")
            def validation(rr, va, threads, log):
                got = float(va) / 100 * m
                ok(int(rr["test_lo"]) - 1e-3 <= got <= int(rr["test_hi"]) + 1e-3 and abs(got - round(got)) < 2e-3 * max(1, m / 50), "validation", "validation accuracy %s%% of %d images reported by %d threads, the saved model labels %s to %s correctly" % (va, m, threads, rr["test_lo"], rr["test_hi"]), log)
                cnt("validation accuracies compared"); cnt("test images re-evaluated", m); cnt("correctly labelled test images", int(rr["test_lo"]))
            validation(rr, va[0], t1, out)
            if fixed:
                fits = []
                for s in (0, 1):
                    df, tw = float(rr["train_diff_%d" % s]), float(rr["train_twin_%d" % s]); fits.append((df <= 1e-3 + 20 * tw, tw, df))
                if min(f[1] for f in fits) < 1e-3:
                    s = next((s for s in (1, 0) if fits[s][0]), None)
                    ok(s is not None, "training", "the saved parameters are not those of two epochs over the training images (differ by %.5f; they moved by %s)" % (min(f[2] for f in fits), rr["moved"])); cnt("trainings compared with the reference")
                    if s is not None and all(x != "-nan" and x != "nan" for _, x in ep) and n - s > 0:
                        for e in (0, 1):
                            g = float(ep[e][1]) / 100 * (n - s); lo, hi = int(rr["epoch%d_lo_%d" % (e, s)]), int(rr["epoch%d_hi_%d" % (e, s)])
                            ok(lo - 1e-2 <= g <= hi + 1e-2, "epoch-accuracy", "epoch %d reports %s%% of %d images, the reference gets %d to %d right" % (e, ep[e][1], n - s, lo, hi)); cnt("epoch accuracies compared")
                # other numbers of threads: the same model
                # (on test images that now carry, mostly, the label the model gives them: the labels do not influence the training)
                t2 = rnd.choice([t for t in th if t != t1] or th)
                if t1 > 1 and rnd.random() < 0.4: t2 = 1
                wrong = rnd.choice([0, 0.1, 0.5])
                with open(d + "/data/MNIST Test Labels.ubyte-label", "r+b") as f:
                    f.seek(8); f.write(bytes((int(rr["pred_%d" % k]) + (rnd.randrange(1, 10) if rnd.random() < wrong else 0)) % 10 for k in range(m)))
                rc2, o2 = run(v, d0 if False else d, "again", t2, top=top)
                if not ok(rc2 == 0, "program-threads", "the program ended with status %s with %d threads" % (rc2, t2), o2): return
                va2 = re.findall(r"Validation accuracy was (\S+?)%", o2)
                if not ok(len(va2) == 1, "validation-line", "validation reports: %s" % va2, o2): return
                r2 = dict(l.split() for l in subprocess.run([ref, d + "/data", d + "/data/again.model_data"], capture_output=True, text=True, timeout=900).stdout.splitlines())
                if not ok("test_lo" in r2, "saved-content", "the model saved with %d threads is incomplete" % t2): return
                validation(r2, va2[0], t2, o2)
                a, b = numbers(model), numbers(d + "/data/again.model_data"); df = max([abs(x - y) for x, y in zip(a, b)] or [0])
                tol = 2e-4 + 20 * min(f[1] for f in fits)
                if tol < 5e-3: ok(len(a) == len(b) and df <= tol, "threads", "with %d threads the saved model differs by %g" % (t2, df)); cnt("models compared across thread counts")
            else: cnt("random start not reproducible")
        finally: shutil.rmtree(d, ignore_errors=True)

    if replay: case(replay["case"])
    else:
        t = time.time()
        with ThreadPoolExecutor(max(2, M.NCPU // 2)) as ex:
            for f in [ex.submit(case, i) for i in range(tier["cases"])]: f.result()
        R.builds["program"] = dict(executions=R.cases, wall_s=round(time.time() - t, 1), builds=tier["builds"])
    if replay:
        for v in R.viol: print("%s: %s" % (v["key"], v["message"]))
        return 1 if R.viol else 0
    return R.finish()
