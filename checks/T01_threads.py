"""Thread counts and schedules: the same results, and no data races."""
import os, re, shutil, struct, tempfile
import numpy as np
from common import *
import ref, rio, prog, build
from glu import P, Capture
PROP = "T01"; LEVEL = "exploration"
RULE = ("every mode of the real program with 1 to 64 threads and repeated: configurations, correlator files and printed observables agree to rounding with those of one thread where no random numbers are drawn, with those of the same number of threads where they are; "
        "the program compiled with ThreadSanitizer on an OpenMP runtime of plain POSIX threads with random delays: no data race, the same results; over-relaxation sweeps link by link; "
        "distinct by variant, mode, options, extents class, threads and seed of the delays")
ASSUMPTIONS = ["the barriers, work sharing and locks of the OpenMP runtime itself are those of shim/gomp.c in the runs watched by ThreadSanitizer",
               "gauge fixing is compared on fields close to the vacuum, where the iteration is not chaotic; elsewhere F01 and F02 judge its results for random numbers of threads",
               "FFTW itself is not instrumented"]
MIN_SIGS = 250
TIMEOUT = 400
RAW = ["nc3", "nc2", "nc5nd3", "nc4nosse", "nc3nofft", "nc3or", "nc3sd", "nc3clover"]
BUILDS = RAW + [v + "_tsan" for v in RAW]
FLOWS = ["WFLOW_STOUT", "WFLOW_LOG", "ADAPTWFLOW_STOUT", "ADAPTWFLOW_LOG"]
SMEAR = ["APE", "STOUT", "LOG", "HYP", "HEX", "HYL"] + FLOWS
CUT = ["EXCEPTIONAL", "NON_EXCEPTIONAL", "FIELDS", "SMEARED_GLUONS", "INSTANTANEOUS_GLUONS", "CONFIGSPACE_GLUONS", "GLUON_PROPS", "STATIC_POTENTIAL", "TOPOLOGICAL_CORRELATOR", "TOPOLOGICAL_SUSCEPTIBILITY", "TOPOLOGICAL_MOMENTS"]
STORE = ["NERSC_SMALL", "NERSC_GAUGE", "NERSC_NCxNC", "MILC", "ILDG", "SCIDAC", "HIREP", "CERN"]

def options():
    o = [("SMEARING", dict(SMEARTYPE=t, DIRECTION=d)) for t in SMEAR for d in ("ALL", "SPATIAL")]
    o += [("CUTTING", dict(CUTTYPE=t, FIELD_DEFINITION=d)) for t in CUT for d in ("LINEAR", "LOGARITHMIC")]
    o += [("GAUGE_FIXING", dict(GFTYPE=t, RANDOM_TRANSFORM=x)) for t in ["LANDAU", "COULOMB", "COULOMB_RESIDUAL", "AXIALT", "MAG", "NONE"] for x in ("NO", "YES")]
    o += [("SUNCxU1", dict(U1_MEAS=t)) for t in ("U1_PLAQUETTE", "U1_RECTANGLE", "U1_TOPOLOGICAL")]
    o += [("HEATBATH", dict(OVER_ITERS=n)) for n in (0, 1)]
    o += [("REWRITE", dict(STORAGE=t)) for t in STORE] + [("REWRITE", dict(STORAGE="NERSC_NCxNC", HEADER=h)) for h in ("RANDOM", "UNIT", "INSTANTON", "MILC", "HIREP", "SCIDAC", "ILDG", "LIME", "NERSC_GAUGE", "CERN")]
    return o

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []; q = tier == "quick"
    for v in RAW:
        N, ND = ncnd(v)
        opts = options()
        if v in ("nc3or", "nc3sd"): opts = [x for x in opts if x[0] == "GAUGE_FIXING"] * 2
        if v == "nc3clover": opts = [x for x in opts if x[0] == "CUTTING" or x[0] == "SMEARING" and "FLOW" in x[1]["SMEARTYPE"]]
        opts = [x for x in opts if not (x[0] == "SUNCxU1" and not build.VARIANTS[v]["fftw"]) and not (x[0] == "CUTTING" and not build.VARIANTS[v]["fftw"] and x[1]["CUTTYPE"] in ("FIELDS", "NON_EXCEPTIONAL", "EXCEPTIONAL") and False)
                and not (x[1].get("HEADER") == "INSTANTON" and ND != 4) and not ("CERN" in x[1].values() and (N, ND) != (3, 4)) and not ("NERSC_SMALL" in x[1].values() and N > 3)]
        for what in ("threads", "tsan"):
            for k in range(1 if q else 6):
                for mode, o in opts:
                    if q and v != "nc3" and r.random() > (0.5 if len(opts) > 30 else 1): continue
                    out.append(dict(variant=v, label="%s/%s" % (what, mode), mode=mode, opts=o, seed=int(r.integers(1, 1 << 31))))
        for k in range(6 if q else 40): out.append(dict(variant=v, label="or", seed=int(r.integers(1, 1 << 31))))
    return out

def links(b, s, N, ND, dims):
    return rio.decode(rio_name(s), b, N, ND)
def rio_name(s): return s["STORAGE"]

def outputs(wd):
    o = {}
    for a, _, fs in os.walk(wd):
        for f in fs:
            if f not in ("in.txt", "conf", "log"): o[os.path.relpath(os.path.join(a, f), wd)] = open(os.path.join(a, f), "rb").read()
    return o
def clear(wd):
    for f in outputs(wd): os.unlink(os.path.join(wd, f))

def numeric(a, b, tol):
    """correlator files: sequences of integers and doubles; true if all words agree to rounding"""
    if a == b: return True
    if len(a) != len(b): return False
    if len(a) % 4: return False
    for order in (">", "<"):
        wa, wb = np.frombuffer(a, order + "u4"), np.frombuffer(b, order + "u4"); diff = np.nonzero(wa != wb)[0]
        def doubles(i):         # the two that the word can be a part of
            for k in (i - 1, i):
                if 0 <= k < len(wa) - 1: yield struct.unpack(order + "d", a[4 * k:4 * k + 8])[0], struct.unpack(order + "d", b[4 * k:4 * k + 8])[0]
        sane = lambda x: x == 0 or 1e-30 < abs(x) < 1e12
        pairs = [[(x, y) for x, y in doubles(i) if sane(x) and sane(y)] for i in diff]
        if not all(pairs): continue
        scale = min(1.0, max(min(abs(y) for _, y in p) for p in pairs))
        if all(any(abs(x - y) <= tol * (abs(y) + scale) for x, y in p) for p in pairs): return True
    return False

NUM = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)")
def lines(t): return [l for l in t.splitlines() if l.strip() and not re.search(r"TIMER|elapsed|[Tt]hread|second|cksum|[Cc]hecksum|CKSUM", l)]
def same_text(a, b, tol):
    """-> None or the first pair of lines that differ by more than rounding"""
    skeleton = lambda l: NUM.sub("#", l).split()      # lines of different threads may change places
    la, lb = (sorted(lines(t), key=skeleton) for t in (a, b))
    if len(la) != len(lb): return ("%d lines" % len(la), "%d lines" % len(lb))
    for x, y in zip(la, lb):
        if x == y: continue
        nx, ny = NUM.findall(x), NUM.findall(y)
        if NUM.sub("#", x).split() != NUM.sub("#", y).split() or len(nx) != len(ny): return x, y
        for p, q in zip(nx, ny):
            if p == q: continue
            u, w = float(p), float(q)
            # the last digit printed may differ
            d = 10.0 ** -max([len(z.lower().split("e")[0].split(".")[1]) if "." in z else 0 for z in (p, q)]) * (10.0 ** int(q.lower().split("e")[1]) if "e" in q.lower() else 1)
            if not abs(u - w) <= tol * (1 + abs(w)) + 1.01 * d: return x, y
    return None

def make(c, g, r, wd):
    N, ND = g.NC, g.ND; mode = c["mode"]; o = dict(c["opts"]); vac = mode == "GAUGE_FIXING" and o["GFTYPE"] in ("LANDAU", "COULOMB", "COULOMB_RESIDUAL")
    big = "HYL" in o.values() or "LOG" in o.get("SMEARTYPE", "") or "LOGARITHMIC" in o.values()
    dims = [4] * ND if o.get("CUTTYPE") == "NON_EXCEPTIONAL" else dims_of(r, ND, 1 if r.random() < 0.3 and not vac else 2, 6, 60 if (N > 3 or big) and c["label"].startswith("tsan") else 150, even="CERN" in o.values())
    s = prog.settings(ND, MODE=mode, SEED=c["seed"], STORAGE="NERSC_NCxNC", SMITERS=int(r.integers(1, 4)), MAX_T=int(r.choice([1, 2, 3])), MAXMOM=int(r.choice([2, 4, 8])), MOM_CUT=str(r.choice(["HYPERCUBIC_CUT", "SPHERICAL_CUT", "CYLINDER_CUT", "CONICAL_CUT"])),
                      ITERS=3, SAVE=1, MEASURE=1, THERM=1, BETA="%.3f" % r.uniform(1, 7), ACCURACY=12, MAX_ITERS=1000, GF_TUNE="0.07", SMEARTYPE=str(r.choice(["APE", "STOUT", "NOTHING"])), DIRECTION=str(r.choice(["ALL", "SPATIAL"])))
    for k in range(1, ND): s["ALPHA%d" % k] = "%.4f" % r.uniform(0.1, 0.6)
    head = o.pop("HEADER", None); s.update(o)
    if "FLOW" in s["SMEARTYPE"]: s["ALPHA1"] = "%.4f" % r.uniform(0.02, 0.06)
    fmt = head if head not in (None, "RANDOM", "UNIT", "INSTANTON") else "NERSC_NCxNC"
    U = ref.field(r, dims, N, "warm" if vac or mode == "SMEARING" or "LOGARITHMIC" in o.values() else str(r.choice(["hot", "warm", "smooth"])))
    if vac: U = ref.field(r, dims, N, "smooth")
    open(os.path.join(wd, "conf"), "wb").write(rio.encode(fmt, dims, U, "D", "big", flow=7))
    s["HEADER"] = head if head in ("RANDOM", "UNIT", "INSTANTON") else prog.HEADERTAG[fmt]
    if mode == "HEATBATH": s["HEADER"] = str(r.choice(["RANDOM", "UNIT"]))
    s = prog.with_dims(s, dims)
    rnd = mode in ("HEATBATH", "SUNCxU1") or s["HEADER"] in ("RANDOM",) and mode != "HEATBATH" or mode == "GAUGE_FIXING" and s["RANDOM_TRANSFORM"] == "YES"
    return s, dims, rnd, U

def iterations(q): return re.findall(r"Iter\w* +:: +(\d+)", q.out)
def compare(R, key, ctx, c, g, s, dims, A, B, ta, tb, ga, gb, tol, text=True):
    """two runs that should agree"""
    N, ND = g.NC, g.ND; R.ok(); fix = c["mode"] == "GAUGE_FIXING"
    if ta != tb: R.bad(key + "/status", "%s: status %s and %s" % (ctx, ta, tb)); return
    if sorted(A) != sorted(B): R.bad(key + "/names", "%s: files %s and %s" % (ctx, sorted(A), sorted(B))); return
    for f in sorted(A):
        a, b = undate(A[f]), undate(B[f]); R.ok()
        if a == b: continue
        if f.endswith(".rand"): R.bad(key + "/generator", "%s: the state of the generator in %s differs" % (ctx, f)); continue
        if c["mode"] == "CUTTING":
            if not numeric(a, b, tol): R.bad(key + "/file", "%s: file %s differs by more than rounding" % (ctx, f))
            continue
        try: x, y = rio.decode(s["STORAGE"], A[f], N, ND), rio.decode(s["STORAGE"], B[f], N, ND)
        except Exception as e: R.bad(key + "/unreadable", "%s: %s is not read: %s" % (ctx, f, e)); continue
        if [str(z) for z in x["problems"]] != [str(z) for z in y["problems"]]: R.bad(key + "/problems", "%s: %s and %s" % (ctx, x["problems"], y["problems"]))
        if x["dims"] != y["dims"]: R.bad(key + "/dims", ctx); continue
        w = tol
        if fix and g.variant == "nc3or" and w > 1e-3: w = 0.2
        if s["STORAGE"] == "NERSC_SMALL": w = max(w, 1e-12) * rio.short_conditioning(y["U"]) if c["mode"] == "REWRITE" else 1
        R.near(key + "/links", x["U"], y["U"], w, "%s file %s" % (ctx, f))
        if c["mode"] == "GAUGE_FIXING":
            L = ref.Lattice(dims); R.near(key + "/plaquettes", ref.plaquettes(L, x["U"]), ref.plaquettes(L, y["U"]), 1e-9, "%s file %s" % (ctx, f))
    if text and ga is not None:
        d = same_text(ga, gb, max(tol, 1e-9))
        if d: R.bad(key + "/printed", "%s: prints %r and %r" % (ctx, d[0][:300], d[1][:300]))

def run(c, g):
    R = Report(); r = rng_of(c["seed"]); N, ND = g.NC, g.ND; lab = c["label"]
    if lab == "or": return overrelax(R, c, g, r)
    wd = tempfile.mkdtemp(prefix="glut01")
    try:
        s, dims, rnd, U = make(c, g, r, wd); mode = c["mode"]; sub = "/".join(str(x) for x in c["opts"].values()); key = "%s/%s" % (lab, sub.split("/")[0])
        fix = mode == "GAUGE_FIXING" and s["GFTYPE"] in ("LANDAU", "COULOMB", "COULOMB_RESIDUAL"); conf = "conf" if mode != "HEATBATH" else "hb"; out = None if mode in ("CUTTING", "HEATBATH") else "out"
        # rounding, and what the operation makes of it
        tol = 2e-2 if fix else 1e-7 if mode == "HEATBATH" else 1e-8 if "ADAPT" in s["SMEARTYPE"] and mode == "SMEARING" else 1e-10
        # after equal numbers of iterations there is only rounding between two gauge fixings
        same = lambda a, b: 1e-6 if fix and iterations(a) and iterations(a) == iterations(b) and g.variant != "nc3or" else tol
        size = "%d%d%d" % (min(dims) == 1, any(d & 1 for d in dims), max(dims) > 4)
        def go(gg, T, env=None, timeout=120):
            clear(wd); q = prog.run(gg, wd, s, conf, out, T, env=env, timeout=timeout); return q, outputs(wd)
        base = {}
        def reference(T):
            if T not in base: base[T] = go(g, T)
            return base[T]
        if lab.startswith("threads"):
            Ts = [1, 1] + [int(x) for x in r.choice([2, 3, 4, 5, 7, 8], 2, replace=False)] + [int(r.choice([12, 16, 33, 64]))]; Ts.append(Ts[2 + int(r.integers(3))])
            for i, T in enumerate(Ts):
                ctx = "%s %s %s extents %s threads %d" % (g.variant, mode, sub, dims, T); T0 = T if rnd else 1
                if rnd and T not in base: reference(T); R.ok(); continue
                q0, o0 = reference(T0)
                q, o = go(g, T)
                R.ok("%s/%s/%s/%s/%d" % (g.variant, lab, sub, size, T))
                if q.rc is None or q0.rc is None:
                    if not fix: R.bad(key + "/hang", "%s: no end: %s" % (ctx, q.text[-500:]))
                    return R.out()
                if q.rc < 0 or q.rc >= 128 and q.rc != 255: R.bad(key + "/signal", "%s: status %s %s" % (ctx, q.rc, q.text[-800:])); return R.out()
                R.obs["program runs"] = R.obs.get("program runs", 0) + 1
                if q.rc: R.obs["runs refused"] = R.obs.get("runs refused", 0) + 1
                if fix and q.rc != q0.rc: R.obs["gauge fixings that converged for some numbers of threads only"] = 1; continue
                compare(R, key, ctx + (" repeated" if rnd or i == 1 or T in Ts[:i] else " and one thread"), c, g, s, dims, o, o0, q.rc, q0.rc, q.out, q0.out, same(q, q0), text=not fix and q.rc == 0)
        else:
            D = build.build(g.variant + "_tsan")
            if not os.path.exists(os.path.join(D, "GLU")): R.obs["programs not linked with the instrumented runtime"] = 1; R.ok(); return R.out()
            class G: pass
            t = G(); t.dir = D; t.variant = g.variant + "_tsan"
            for k in range(2):
                T = int(r.choice([2, 3, 4, 5, 8, 17])); sd = int(r.integers(1, 1 << 30)); dl = int(r.choice([0, 1, 1, 4])) if T < 17 else 0
                ctx = "%s %s %s extents %s threads %d delays %d/%d" % (g.variant, mode, sub, dims, T, sd, dl)
                q, o = go(t, T, env={"GLU_GOMP_LOG": "log", "GLU_GOMP_SEED": str(sd), "GLU_GOMP_DELAYS": str(dl), "TSAN_OPTIONS": "halt_on_error=0:report_bugs=1:history_size=4:exitcode=66"}, timeout=60)
                R.ok("%s/%s/%s/%s/%d" % (g.variant, lab, sub, size, T))
                races = [b for b in q.err.split("==================") if "WARNING: ThreadSanitizer" in b]
                for b in races:
                    kind = re.search(r"WARNING: ThreadSanitizer: ([a-zA-Z \-]+)", b).group(1).strip(); tops = [m.groups() for m in re.finditer(r"#\d+ (\w+)[\w.]* /\S*?src/(\S+?\.[ch]):\d+", b)]
                    if kind.startswith("thread leak"): continue
                    R.bad("race/%s" % ("@".join(tops[0]) if tops else kind), "%s: %s" % (ctx, b[:2500]))
                if q.rc is None:
                    R.obs["instrumented runs stopped"] = R.obs.get("instrumented runs stopped", 0) + 1; continue
                if not races and "ThreadSanitizer: unexpected memory" in q.err: R.obs["instrumented runs that did not start"] = R.obs.get("instrumented runs that did not start", 0) + 1; continue
                if q.rc == 97: continue
                try:
                    x = [int(z) for z in open(os.path.join(wd, "log")).read().split()]
                    for nm, z in zip(("parallel regions watched", "barriers watched", "distinct orders of arrival at barriers (sum over runs)", "pieces of shared work"), x): R.obs[nm] = R.obs.get(nm, 0) + z
                except Exception: pass
                R.obs["instrumented runs"] = R.obs.get("instrumented runs", 0) + 1
                q0, o0 = reference(T if rnd else 1)
                if races or fix and q.rc != q0.rc or q0.rc is None: continue
                if q.rc < 0: R.bad(key + "/signal", "%s: status %s %s" % (ctx, q.rc, q.text[-800:])); continue
                # other compiler flags: other rounding
                compare(R, key, ctx + " and the ordinary program", c, g, s, dims, o, o0, q.rc, q0.rc, None, None, max(same(q, q0), 1e-9), text=False)
    finally: shutil.rmtree(wd, ignore_errors=True)
    return R.out()

def overrelax(R, c, g, r):
    N, ND = g.NC, g.ND; dims = dims_of(r, ND, 2, 5, 120); U = ref.field(r, dims, N, str(r.choice(["hot", "warm"])))
    import ctypes as C
    S = g.shim("upd"); S.u_sweep.argtypes = [C.c_void_p, C.c_double, C.c_int, C.c_int, C.c_int]; base = None; n = int(r.integers(1, 3)); nor = int(r.integers(1, 3))
    for T in [1] + [int(x) for x in r.choice([2, 3, 4, 5, 8, 16, 40], 3, replace=False)] + [1]:
        g.setup(dims, T, c["seed"]); q = g.lat(U)
        with Capture(g.B) as cap: st = S.u_sweep(q, 5.0, 0, nor, n)
        V = g.get(q); g.free(q); R.ok("%s/or/%d/%s" % (g.variant, T, "".join(str(d & 1) for d in dims)))
        if base is None: base = (st, V); continue
        if st != base[0]: R.bad("or/status", "%s extents %s threads %d: %s and %s" % (g.variant, dims, T, st, base[0])); continue
        R.near("or/links", V, base[1], 1e-9, "%s over-relaxation on extents %s with %d threads and with one" % (g.variant, dims, T))
    return R.out()
