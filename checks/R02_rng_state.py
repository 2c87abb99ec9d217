"""Saved generator states: the restored streams against the uninterrupted ones."""
import ctypes, os, re, subprocess, sys, tempfile, json
import numpy as np
from common import *
from glu import P, Capture
PROP = "R02"; LEVEL = "exploration"
RULE = ("every selectable generator; random numbers of draws per thread before saving (none, odd, beyond a whole table), 1-8 threads, repeated "
        "saves, restoring in the same process, over a live generator, after another seed and in a fresh process; bitwise comparison of every "
        "thread's continuation; states of another thread count or generator, cut short or without their keys, which must be remarked upon; distinct by generator, threads, history and way of restoring")
ASSUMPTIONS = ["the restoring run has the same number of threads, as the property says"]
MIN_SIGS = 60
GEN = ["nc3", "nc3kiss", "nc3mwc1038", "nc3xor", "nc3well", "nc2", "nc3gslrng"]
BUILDS = GEN

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []; rep = 12 if tier == "quick" else 60
    for v in GEN:
        for k in range(rep):
            T = int(r.integers(1, 9)) if k % 6 != 4 else int(r.integers(9, 34))
            h = [[0] * T, [1] * T, [int(x) for x in r.integers(0, 50, T)], [int(x) for x in r.integers(0, 20000, T)], [4096] * T, [1037] * T, [5001] * T][k % 7]
            if k % 12 == 9: h[-1] = int(r.integers(65000, 140000))
            out.append(dict(variant=v, label=["init", "live", "fresh", "process"][k % 4 if k % 12 < 11 else 3], seed=int(r.integers(1, 1 << 32)), threads=T, history=h, saves=int(r.integers(1, 4))))
        for how in ("fewer", "more", "cut", "other", "nothreads", "noname", "headeronly"):
            for _ in range(1 if tier == "quick" else 4):
                T = int(r.integers(2, 9))
                out.append(dict(variant=v, label="unusable/" + how, how=how, seed=int(r.integers(1, 1 << 32)), threads=T, history=[int(x) for x in r.integers(0, 5000, T)], saves=1))
    return out

CHILD = """
import sys, json; sys.path.insert(0, %r)
from glu import *; import numpy as np, ctypes
a = json.loads(sys.argv[1]); g = Glu(a["variant"]); g.setup([2]*g.ND, a["threads"], 77)
S = g.shim("rng"); S.r_draw.argtypes = [ctypes.c_void_p, ctypes.c_long, ctypes.c_uint]; S.r_init.argtypes = [ctypes.c_char_p]
with Capture(g.B) as C: st = S.r_init(a["file"].encode())
out = np.zeros((a["threads"], a["n"]))
if st == 0:
    for t in range(a["threads"]): S.r_draw(P(out[t]), a["n"], t)
np.save(a["out"], out); json.dump([st, C.text], open(a["out"] + ".json", "w"))
"""

def unusable(c, g):
    # a state that is not one of this run: never taken over without a word
    R = Report(); T = c["threads"]; how = c["how"]; S = g.shim("rng")
    S.r_draw.argtypes = [ctypes.c_void_p, ctypes.c_long, ctypes.c_uint]
    for f in ("r_init", "r_write", "r_read"): getattr(S, f).argtypes = [ctypes.c_char_p]
    ctx = "%s %s seed %d threads %d" % (g.variant, how, c["seed"], T)
    with tempfile.TemporaryDirectory(prefix="glur02") as d:
        f = os.path.join(d, "state.rand"); g.setup([2] * g.ND, T, c["seed"])
        with Capture(g.B): S.r_init(None)
        z = np.zeros(5000)
        for t, k in enumerate(c["history"]): S.r_draw(P(z), k, t)
        S.r_write(f.encode())
        g.setup([2] * g.ND, T, 99)
        with Capture(g.B) as cap: st = S.r_init(f.encode())
        good = cap.text
        if st: R.bad("restore/status", ctx + ": an untouched state is refused: " + good[-200:])
        b = open(f, "rb").read(); U = T
        h = b.index(b"END_HEADER"); e = b.index(b"\n", h) + 1; head, body = b[:e], b[e:]
        if how == "fewer": U = T - 1
        elif how == "more": U = T + 1
        elif how == "cut": b = b[:e + int(len(body) * 0.9)]
        elif how == "headeronly": b = head
        elif how == "other":
            i = b.index(b"PAR_"); b = b[:i] + b"PAR_OTHER" + b[b.index(b"\n", i):]
        elif how == "nothreads": b = b.replace(b"NTHREADS", b"NTHREADZ")
        elif how == "noname":
            i = b.rindex(b"\n", 0, b.index(b"PAR_")); b = b[:i] + b[b.index(b"\n", i + 1):]
        open(f, "wb").write(b)
        g.setup([2] * g.ND, U, 99)
        with Capture(g.B) as cap: st = S.r_init(f.encode())
        R.ok()
        strip = lambda x: re.sub(r"[0-9.]+", "#", x)
        if st == 0 and strip(cap.text) == strip(good):
            R.bad("unusable/" + how, "%s: a state that does not fit this run is taken over without a complaint" % ctx)
    R.ok("%s/%s/%d" % (g.variant, how, T)); return R.out()

def run(c, g):
    if "how" in c: return unusable(c, g)
    R = Report(); T = c["threads"]; n = 6000
    ctx = "%s %s seed %d threads %d history %s saves %d" % (g.variant, c["label"], c["seed"], T, c["history"], c["saves"])
    S = g.shim("rng")
    S.r_draw.argtypes = [ctypes.c_void_p, ctypes.c_long, ctypes.c_uint]
    for f in ("r_init", "r_write", "r_read"): getattr(S, f).argtypes = [ctypes.c_char_p]
    def draws(k):
        a = np.zeros((T, k))
        for t in range(T): S.r_draw(P(a[t]), k, t)
        return a
    with tempfile.TemporaryDirectory(prefix="glur02") as d:
        f = os.path.join(d, "state.rand")
        g.setup([2] * g.ND, T, c["seed"])
        with Capture(g.B): S.r_init(None)
        for t, k in enumerate(c["history"]): draws_t = np.zeros(k); S.r_draw(P(draws_t), k, t)
        for s in range(c["saves"]):      # saving must not disturb the stream: the last save counts
            if s: draws(7)
            S.r_write(f.encode())
        A = draws(n)
        # an uninterrupted run that never saved
        g.setup([2] * g.ND, T, c["seed"])
        with Capture(g.B): S.r_init(None)
        for t, k in enumerate(c["history"]): z = np.zeros(k); S.r_draw(P(z), k, t)
        if c["saves"] > 1: draws(7 * (c["saves"] - 1))
        B = draws(n); R.ok()
        if not np.array_equal(A, B): R.bad("save/disturbs", "%s: the run that saved its state goes on differently from one that did not" % ctx)
        A = B
        st, txt = 0, ""
        if c["label"] == "process":
            arg = dict(variant=g.variant, threads=T, n=n, file=f, out=os.path.join(d, "o.npy"))
            p = subprocess.run([sys.executable, "-c", CHILD % os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"), json.dumps(arg)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
            if not os.path.exists(arg["out"] + ".json"):
                R.bad("restore/process", "%s: restoring process ended with %d: %s" % (ctx, p.returncode, p.stdout[-400:])); return R.out()
            C = np.load(arg["out"]); st, txt = json.load(open(arg["out"] + ".json"))
        else:
            if c["label"] == "init": g.setup([2] * g.ND, T, c["seed"])
            elif c["label"] == "fresh": g.setup([2] * g.ND, T, (c["seed"] ^ 0x1234567) or 1)
            with Capture(g.B) as cap:
                if c["label"] == "live": draws(11); st = S.r_read(f.encode())      # over a running generator
                else: st = S.r_init(f.encode())
            txt = cap.text
            # what every random operation does first; it must not start anew
            with Capture(g.B): st2 = S.r_init(None)
            C = draws(n)
            if st2: R.bad("restore/init", ctx + ": initialisation after restoring failed")
        if st: R.bad("restore/status", "%s: restoring returned %d: %s" % (ctx, st, txt[-300:])); return R.out()
        for t in range(T):
            R.ok(n=n)
            if not np.array_equal(A[t], C[t]):
                k = int(np.argmax(A[t] != C[t]))
                R.bad("restore/" + c["label"], "%s: stream %d differs from its draw %d after restoring on (%.17g, expected %.17g)" % (ctx, t, k, C[t][k], A[t][k])); break
        if c["label"] != "process":
            f2 = os.path.join(d, "again"); g.setup([2] * g.ND, T, 5)
            with Capture(g.B): S.r_init(f.encode())
            S.r_write(f2.encode()); R.ok()
            if open(f, "rb").read() != open(f2, "rb").read(): R.bad("restore/file", ctx + ": saving a restored state gives another file")
    R.ok("%s/%s/%d/%s/%d" % (g.variant, c["label"], T, c["history"][0], c["saves"]))
    return R.out()
