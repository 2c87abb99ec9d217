#!/usr/bin/env python3
"""tools/mutants.py FILE [-s] [-j N] [ID ...]: runs the checks against the edits listed in FILE,
each in a private mount namespace with its own copy of /repo, and appends one line per edit
to FILE.out. FILE holds python: M = [(id, "PROP[,PROP]", "src file", old, new), ...]; old must
occur once (or be (old, n) for the n-th occurrence)."""
import sys, os, subprocess, json, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor, as_completed
f = sys.argv[1]; a = sys.argv[2:]; J = 2
STOP = False
if a[:1] == ["-s"]: STOP = True; a = a[1:]      # only edits the tests let through, up to the first check that reports
if a[:1] == ["-j"]: J = int(a[1]); a = a[2:]
ns = {}; exec(open(f).read(), ns)
base = set(map(str, json.load(open("/opt/vp/BASELINE.json")).get("stable") or []))
CACHE = "/tmp/objcache"; os.makedirs(CACHE, exist_ok=True)
SEED = os.environ.get("VERIF_SEED", "1")
def one(m):
    mid, props, path, old, new = m
    W = "/tmp/mut/" + mid; shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    try:
        subprocess.run(["cp", "-a", "/tmp/mutbase", W + "/repo"], check=True)
        p = W + "/repo/src/" + path; s = open(p, encoding="latin-1").read(); n = None
        if isinstance(old, tuple): old, n = old
        c = s.count(old)
        if c == 0 or (n is None and c != 1): return "%s BADEDIT count=%d" % (mid, c)
        if n is None: s = s.replace(old, new)
        else:
            i = -1
            for _ in range(n): i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        open(p, "w", encoding="latin-1").write(s)
        for d in ("build", "ev", "tmp"): os.mkdir(W + "/" + d)
        sh = ["mount --bind %s/repo /repo" % W, "mkdir -p /verif/.build /verif/evidence",
              "mount --bind %s/build /verif/.build" % W, "mount --bind %s/ev /verif/evidence" % W,
              "timeout 300 bash /opt/vp/test.sh %s/t.json > %s/t.log 2>&1; echo TEST $?" % (W, W), "cd /verif"]
        if STOP: sh.insert(3, "bash /opt/vp/build.sh > %s/b.log 2>&1 || { echo NOBUILD; exit; }" % W); sh.append("""python3 -c "import json; o=json.load(open('%s/t.json')); import sys; sys.exit(bool(o['failed']))" || { echo TESTSFAIL; exit; }""" % W)
        for q in props.split(","):
            sh.append("VERIF_SEED=%s VERIF_TIER=quick timeout 900 ./check %s > %s/%s.log 2>&1; k=$?; echo CHECK %s $k%s" % (SEED, q, W, q, q, "; [ $k = 0 ] || exit" if STOP else ""))
        t = time.time()
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", "\n".join(sh)], capture_output=True, text=True, env=dict(os.environ, GLU_VERIF_OBJCACHE=CACHE, TMPDIR="/tmp"))
        try:
            o = json.load(open(W + "/t.json")); k = {x: (len(v) if isinstance(v, (list, dict)) else v) for x, v in o.items()}
        except Exception as e: k = "notests"
        out = "%s tests=%s %s %ds" % (mid, k, " ".join(r.stdout.split()), time.time() - t)
        for q in props.split(","):
            if not os.path.exists("%s/%s.log" % (W, q)): continue
            L = [l for l in open("%s/%s.log" % (W, q), errors="replace") if "VIOLATION" in l or "rror" in l][:2]
            for l in L: out += "\n     " + l.strip()[:200]
        return out
    except Exception as e:
        return "%s FAILED %r" % (mid, e)
    finally:
        shutil.rmtree(W, ignore_errors=True)
done = set()
if os.path.exists(f + ".out"):
    done = {l.split()[0] for l in open(f + ".out") if not l.startswith(" ")}
todo = [m for m in ns["M"] if (m[0] in a if a else m[0] not in done)]
with ThreadPoolExecutor(J) as ex:
    for o in as_completed([ex.submit(one, m) for m in todo]):
        o = o.result()
        open(f + ".out", "a").write(o + "\n"); print(o, flush=True)
