"""Runner shared by all checks: distributes cases over worker processes,
classifies what happened, writes the evidence file, prints the verdict.

A check module provides
  PROP, RULE, LEVEL, ASSUMPTIONS
  cases(tier, seed) -> list of dicts, each with "variant", "label" and inputs
  run(case, glu)    -> {"evals": n, "sigs": [...], "fail": [[key, text], ...],
                        "obs": {...}}
sigs are signatures of the distinct non-trivial situations observed.
"""
import itertools, sys, os, json, time, re, subprocess, threading, queue, selectors, hashlib, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build

LIBASAN = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True,
                         text=True).stdout.strip()
LIBUBSAN = subprocess.run(["gcc", "-print-file-name=libubsan.so"], capture_output=True,
                          text=True).stdout.strip()

def known_findings(prop):
    p = os.path.join(ROOT, "known_findings.json")
    out = []
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e["property"] == prop and e["status"] == "known":
                out.append(e)
    return out

def san_env(env, variant):
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:halt_on_error=1:"
                           "allocator_may_return_null=1:detect_stack_use_after_return=1:"
                           "max_allocation_size_mb=4000")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    return env

def crash_site(text):
    """where a sanitizer or the C library says it stopped"""
    kind = ""
    m = re.search(r"AddressSanitizer: ([\w-]+)", text)
    if m: kind = m.group(1)
    m2 = re.search(r"runtime error: ([^\n]{0,60})", text)
    if not kind and m2: kind = "ub:" + re.sub(r"[^a-z]+", "-", m2.group(1).lower())[:40].strip("-")
    fr = re.search(r"#\d+ 0x[0-9a-f]+ (?:in )?(\S+) /repo/src/(\S+?):\d+", text)
    where = ""
    if fr: where = fr.group(1).split(".")[0] + "@" + os.path.basename(fr.group(2))
    return kind, where

COUNT = itertools.count()
STOP = threading.Event()       # enough is known, or the time is up
LIVE = set()

class Worker:
    def __init__(self, check, variant, digest):
        env = dict(os.environ)
        self.log = os.path.join(tempfile.gettempdir(), "glucap-%d-%d" % (os.getpid(), next(COUNT)))
        env["OMP_DYNAMIC"] = "false"; env["OMP_WAIT_POLICY"] = "passive"
        env["OPENBLAS_NUM_THREADS"] = "1"; env["MKL_NUM_THREADS"] = "1"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        if variant != "-" and build.VARIANTS[variant]["san"]:
            env["LD_PRELOAD"] = LIBASAN + " " + LIBUBSAN
            san_env(env, variant)
        env["GLUV_CAPTURE"] = self.log     # what is said while the output is captured
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen(
            [sys.executable, os.path.join(HERE, "worker.py"), check, variant, digest],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
            env=env, start_new_session=True)
        self.buf = b""; LIVE.add(self)
    def send(self, n, case):
        self.p.stdin.write((json.dumps([n, case]) + "\n").encode()); self.p.stdin.flush()
    def recv(self, timeout):
        """next event, None when the process ended, 'timeout' when silent"""
        end = time.time() + timeout
        sel = selectors.DefaultSelector()
        sel.register(self.p.stdout, selectors.EVENT_READ)
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0 or not sel.select(left):
                if time.time() >= end: return "timeout"
                continue
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d: return None
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)
    def kill(self):
        try: os.killpg(self.p.pid, 9)
        except Exception: pass
        LIVE.discard(self); self.p.wait()
    def tail(self, n=6000):
        self.err.seek(0); s = self.err.read()
        if os.path.exists(self.log):
            t = open(self.log, "rb").read(); os.remove(self.log)
            k = max(t.find(b"ERROR: AddressSanitizer"), t.find(b"runtime error:"))
            s += b"\n" + (t[max(0, k - 200):] if k >= 0 else t[-3000:])[:n - 500]
        return s.decode(errors="replace")[-n:]

def run_cases(check, variant, digest, numbered, timeout):
    """yields (n, status, payload); status: done | err | crash | hang | fatal"""
    todo = list(numbered)
    while todo and not STOP.is_set():
        w = Worker(check, variant, digest)
        ev = w.recv(600)
        if STOP.is_set(): w.kill(); return
        if not isinstance(ev, dict) or ev["ev"] == "fatal":
            w.kill()
            yield (todo[0][0], "fatal", (ev or {}).get("err", "") if isinstance(ev, dict)
                   else "worker did not start: %r %s" % (ev, w.tail()))
            return
        alive = True
        while todo and alive:
            n, case = todo[0]
            try:
                w.send(n, case)
            except BrokenPipeError:
                pass
            while True:
                ev = w.recv(case.get("timeout", timeout))
                if STOP.is_set(): w.kill(); return
                if ev == "timeout":
                    w.kill(); alive = False
                    yield (n, "hang", w.tail()); todo.pop(0); break
                if ev is None:
                    w.p.wait(); alive = False
                    yield (n, "crash", "exit status %d\n%s" % (w.p.returncode, w.tail()))
                    todo.pop(0); break
                if ev["ev"] == "done":
                    yield (n, "done", ev["res"]); todo.pop(0); break
                if ev["ev"] == "exc":
                    yield (n, "done", {"evals": 1, "fail": [
                        ["uninterpretable/%s/%s/%s" % (case["variant"], case["label"], ev["kind"]),
                         "the output could not be interpreted: " + ev["err"][-2500:]]]}); todo.pop(0); break
                if ev["ev"] == "err":
                    yield (n, "err", ev["err"]); todo.pop(0); break
        w.kill()

def main(modfile):
    import importlib.util
    modfile = os.path.abspath(modfile)
    spec = importlib.util.spec_from_file_location("check", modfile)
    mod = importlib.util.module_from_spec(spec); sys.modules["check"] = mod
    spec.loader.exec_module(mod)
    prop = mod.PROP
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    if "--thorough" in sys.argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        cases = [replay["case"]]
    else:
        cases = mod.cases(tier, seed)
    if "--only" in sys.argv:
        pat = sys.argv[sys.argv.index("--only") + 1]
        cases = [c for c in cases if re.search(pat, c["variant"] + "/" + c["label"])]
    verbose = "-v" in sys.argv
    digest = build.tree_digest()
    # build what is needed first, so that build time is not case time
    failed_builds = {}
    for v in sorted(set(c["variant"] for c in cases if c["variant"] != "-")
                    | set(getattr(mod, "BUILDS", []))):
        try:
            build.build(v, digest=digest)
        except build.BuildError as e:
            failed_builds[v] = str(e)
    if failed_builds:
        print("cannot build: " + "; ".join("%s: %s" % (k, x[-1500:]) for k, x in failed_builds.items()))
        # what can be built is still judged; without the configurations of the build script nothing is
        if any(build.usual(v) for v in failed_builds): sys.exit(2)
        cases = [c for c in cases if c["variant"] not in failed_builds]
    numbered = list(enumerate(cases))
    timeout = getattr(mod, "TIMEOUT", 240)
    par = getattr(mod, "PARALLEL", 8)
    # chunks: cases of one variant, spread so that all workers stay busy
    byv = {}
    for n, c in numbered: byv.setdefault(c["variant"], []).append((n, c))
    chunks = []
    per = max(1, (len(numbered) + 4 * par - 1) // (4 * par))
    per = max(per, getattr(mod, "MINCHUNK", 1))
    for v, l in byv.items():
        k = max(1, (len(l) + per - 1) // per)
        for j in range(k):
            chunks.append((v, l[j::k]))
    q = queue.Queue()
    for c in sorted(chunks, key=lambda c: -sum(x[1].get("cost", 1) for x in c[1])): q.put(c)
    results, fatal, lock = {}, [], threading.Lock()
    tick = [time.time()]
    def pump():
        while True:
            try: v, l = q.get_nowait()
            except queue.Empty: return
            last = time.time()
            for n, st, pay in run_cases(modfile, v, digest, l, timeout):
                now = time.time()
                with lock:
                    if st == "fatal": fatal.append(pay)
                    else: results[n] = (st, pay, now - last)
                last = now
    th = [threading.Thread(target=pump) for _ in range(par)]
    for t in th: t.start()
    # a run on every change answers within its time: with violations at hand it ends
    # early, and in no case does it go on beyond LIMIT
    LIMIT = 800 if tier == "quick" else 10 ** 9; EARLY = 420 if tier == "quick" else 10 ** 9
    kf = known_findings(prop)
    def alarming():
        with lock: l = list(results.values())
        for st, pay, _ in l:
            if st in ("hang", "crash"): return True
            if st == "done" and any(not any(re.fullmatch(e["key"], k) for e in kf) for k, _t in pay.get("fail", [])): return True
        return False
    unfinished = False
    while any(t.is_alive() for t in th):
        el = time.time() - t0
        if el > LIMIT - 15 or (el > EARLY and alarming()):
            STOP.set(); unfinished = True
            for w in list(LIVE):
                try: os.killpg(w.p.pid, 9)
                except Exception: pass
        time.sleep(0.05 if el < 60 else 0.5)
    for t in th: t.join()
    STOP.clear()
    if fatal:
        print("harness failure:\n" + fatal[0]); sys.exit(2)
    # crashes and hangs: once more, alone
    evals, sigs, fails, obs, errs, incon = 0, set(), [], {}, [], []
    again = [n for n in sorted(results) if results[n][0] in ("crash", "hang")]
    def violating():
        return any(st == "done" and any(not any(re.fullmatch(e["key"], k) for e in kf) for k, _t in pay.get("fail", [])) for st, pay, _ in results.values())
    retry = [n for n in again if not unfinished or not violating()][:40]
    def redo(n):
        c = dict(cases[n]); to = 3 * c.get("timeout", timeout)
        if tier == "quick":
            to = min(to, LIMIT + 40 - (time.time() - t0))
            if to < 20: return
        c["timeout"] = to
        for _, st, pay in run_cases(modfile, c["variant"], digest, [(n, c)], to):
            results[n] = (st, pay, 0)
    rq = queue.Queue()
    for n in retry: rq.put(n)
    def rpump():
        while True:
            try: n = rq.get_nowait()
            except queue.Empty: return
            first = results[n]
            redo(n)
            if results[n][0] == "done" and first[0] == "crash":
                # a crash is a crash, even when it depends on the layout
                results[n] = first
    th = [threading.Thread(target=rpump) for _ in range(4)]
    for t in th: t.start()
    for t in th: t.join()
    slow = []
    for n, c in numbered:
        if n not in results:
            errs.append("case %d was not reached in the time there is" % n if unfinished else "case %d never ran" % n); continue
        st, pay, dt = results[n]
        slow.append((dt, c["variant"] + "/" + c["label"]))
        if st == "err":
            errs.append("%s/%s: %s" % (c["variant"], c["label"], pay))
        elif st == "done":
            evals += pay.get("evals", 1)
            for s in pay.get("sigs", []): sigs.add(json.dumps(s) if not isinstance(s, str) else s)
            for k, t in pay.get("fail", []): fails.append((k, t, c))
            for k, x in (pay.get("obs") or {}).items():
                if isinstance(x, (int, float)) and not isinstance(x, bool):
                    if k.startswith("max_"): obs[k] = max(obs.get(k, x), x)
                    elif k.startswith("min_"): obs[k] = min(obs.get(k, x), x)
                    else: obs[k] = obs.get(k, 0) + x
                else: obs[k] = x
        elif st == "crash":
            evals += 1
            kind, where = crash_site(pay)
            m = re.search(r"exit status (-?\d+)", pay)
            key = "crash/%s/%s/%s%s" % (c["variant"], c["label"], kind or "status%s" % m.group(1),
                                        "/" + where if where else "")
            fails.append((key, "the program was ended abnormally: " + pay[-3500:], c))
        elif st == "hang":
            evals += 1
            fails.append(("hang/%s/%s" % (c["variant"], c["label"]),
                          "no result after the time limit: " + pay[-800:], c))
    # several known findings, everything else is a violation
    viol, kseen = {}, {}
    for k, t, c in fails:
        e = next((e for e in kf if re.fullmatch(e["key"], k)), None)
        if e is not None: kseen.setdefault(e["key"], (e, t, c))
        else: viol.setdefault(k, (t, c))
    for k, (e, t, c) in kseen.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    rdir = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for i, (k, (t, c)) in enumerate(sorted(viol.items())):
        path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha256(k.encode()).hexdigest()[:10]))
        json.dump({"property": prop, "key": k, "detail": t, "case": c, "seed": seed,
                   "how": "python3-vt %s --replay <this file>" % os.path.relpath(modfile, ROOT)},
                  open(path, "w"), indent=1, default=str)
        if i < 20:
            print("%s\n  %s" % (k, t[-2500:].replace("\n", "\n  ")))
            print("VIOLATION property=%s replay=%s" % (prop, path))
    if verbose:
        for dt, l in sorted(slow)[-12:]: print("%7.2f s  %s" % (dt, l))
        print(json.dumps(obs, indent=1, default=str)[:4000])
    ncomp = len(set(c["variant"] for c in cases))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(sigs),
                       "rule": mod.RULE, "samples": sorted(sigs)[:: max(1, len(sigs) // 6)][:7],
                       "cases": len(cases), "variants": sorted(set(c["variant"] for c in cases)),
                       "observed": obs,
                       "known_findings_seen": [e["what"] for e, _, _ in kseen.values()]},
          "assumptions": mod.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2),
          "violations": len(viol)}
    if replay is None and "--only" not in sys.argv:
        json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s %s seed=%d: %d cases, %d evaluations, %d distinct non-trivial, %d violations, %.1f s"
          % (prop, tier, seed, len(cases), evals, len(sigs), len(viol), time.time() - t0))
    if viol: sys.exit(1)
    if errs:
        print("harness failure in %d cases:\n%s" % (len(errs), errs[0])); sys.exit(2)
    if not sigs:
        print("nothing was observed"); sys.exit(2)
    minimum = getattr(mod, "MIN_SIGS", 1)
    if replay is None and "--only" not in sys.argv and not failed_builds and len(sigs) < minimum:
        print("only %d distinct situations observed, %d expected" % (len(sigs), minimum)); sys.exit(2)
    sys.exit(0)
