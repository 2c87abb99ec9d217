"""Interrupted and continued update runs of the real driver against uninterrupted ones."""
import ctypes, os, re, tempfile
import numpy as np
from common import *
import ref
from glu import P, Capture
PROP = "U03"; LEVEL = "exploration"
RULE = ("update runs of the real driver (heat bath + over-relaxation, thermalisation, measurements, saves) from random starts; every saved "
        "configuration is read back by the library and compared with the printed measurement, and a run continued from save points must "
        "write the uninterrupted run's next configuration and generator state; storage formats, generators, colour counts, 1-8 threads, save and "
        "measurement intervals, path shapes; distinct by variant, format, path shape, save point and threads")
ASSUMPTIONS = ["reading reunitarises, so a continued run agrees with the uninterrupted one up to rounding, 1e-8 in every link at the first save after the restart, and exactly in the generator state; later saves are judged for existence only, the dynamics being chaotic",
               "the continued run reads the file the first run saved, with the same number of threads"]
MIN_SIGS = 30
TIMEOUT = 300
VAR = ["nc3", "nc2", "nc4", "nc3kiss", "nc3xor", "nc3mwc1038", "nc3well", "nc3symanzik"]
BUILDS = VAR
# storage number, header number for reading, links survive a round trip to the last bit
FMT = {"NERSC_SMALL": (1, 1, False), "NERSC_GAUGE": (2, 1, False), "NERSC_NCxNC": (3, 1, True), "MILC": (4, 3, True), "ILDG": (5, 5, True), "SCIDAC": (6, 4, True), "HIREP": (7, 2, False), "CERN": (8, 9, True)}
PATHS = ["conf", "run10/conf_L08b600", "dir/conf", "./conf", "./dir.x/conf", "a.b/c.d/conf", "/conf-absolute", "../up/conf", "conf.ext"]

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []; rep = 5 if tier == "quick" else 30
    def add(v, fmt, path):
        ND = ncnd(v)[1]; d = [4] * 4 if v == "nc3symanzik" else [2 * int(x) for x in r.integers(1, 3, ND)] if fmt in ("CERN",) else dims_of(r, ND, 2, 4, 60)
        # where reading changes the last bits the rounding grows by up to 1000 per over-relaxation sweep: compare after one sweep
        rough = not FMT[fmt][2]
        save = 1 if rough else int(r.integers(1, 4)); out.append(dict(variant=v, label="run/" + fmt, fmt=fmt, path=path, dims=d, seed=int(r.integers(1, 1 << 31)), threads=int(r.integers(1, 9)),
             beta=float(r.uniform(1, 8)), save=save, meas=int(r.integers(1, 4)), nor=0 if rough else int(r.integers(0, 3)), therm=int(r.integers(0, 4)), iters=save * int(r.integers(3, 6)) + int(r.integers(1, 3))))
    for k in range(rep):
        for v in VAR:
            for f in (["NERSC_NCxNC"] + [[f for f in FMT if (f != "CERN" or ncnd(v) == (3, 4)) and (f != "NERSC_SMALL" or ncnd(v)[0] < 4)][int(i)] for i in r.permutation(6)[:2]] if v != "nc3" else list(FMT) * 2):
                add(v, f, PATHS[int(r.integers(len(PATHS)))])
        for p in PATHS: add("nc3", "NERSC_NCxNC", p)
    return out

def run(c, g):
    R = Report(); dims = c["dims"]; N, ND = g.NC, g.ND; r = rng_of(c["seed"]); lat = ref.Lattice(dims)
    S = g.shim("upd"); C = ctypes
    sto, head, exact = FMT[c["fmt"]]
    S.u_update.argtypes = [C.c_void_p, C.c_double] + [C.c_size_t] * 5 + [C.c_int, C.c_char_p, C.c_int, C.c_char_p]
    S.u_heatbath.argtypes = [C.c_char_p, C.c_int, C.c_double] + [C.c_size_t] * 5 + [C.c_int, C.c_int, C.c_char_p]
    S.u_read.argtypes = [C.c_char_p, C.c_int, C.c_void_p]; S.u_read.restype = C.c_void_p
    ctx = "%s %s path %s dims %s threads %d beta %.3g therm %d over-relaxations %d save %d measure %d iterations %d" % (
        g.variant, c["fmt"], c["path"], dims, c["threads"], c["beta"], c["therm"], c["nor"], c["save"], c["meas"], c["iters"])
    K = c["fmt"] if not c["fmt"].startswith("NERSC") else "NERSC"
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="gluu03") as top:
        wd = os.path.join(top, "w"); os.makedirs(wd); os.chdir(wd)
        try:
            path = c["path"]
            if path.startswith("/"): path = top + path
            os.makedirs(os.path.dirname(os.path.join(wd, path)), exist_ok=True)
            dd, base = os.path.split(path); stem = os.path.join(dd, base.split(".")[0])
            def listing(): return sorted(os.path.relpath(os.path.join(a, f), top) for a, _, fs in os.walk(top) for f in fs)
            U = ref.field(r, dims, N, "warm")
            g.setup(dims, c["threads"], c["seed"], head); g.B.v_flow(0); p = g.lat(U)
            args = (c["beta"], c["iters"], c["meas"], c["nor"], c["save"])
            with Capture(g.B) as cap: st = S.u_update(p, *args, c["therm"], 0, path.encode(), sto, b"test")
            end = g.get(p); g.free(p); R.ok()
            if st: R.bad("status/" + K, "%s: update returned %d" % (ctx, st)); return R.out()
            meas = {int(a): float(b) for a, b in re.findall(r"\[UPDATE\] (\d+) :: \{P\} (\S+)", cap.text)}
            want = [i for i in range(0, c["iters"]) if i % c["meas"] == 0]
            if sorted(meas) != want: R.bad("measurements", "%s: measured at %s" % (ctx, sorted(meas)))
            pts = [i for i in range(1, c["iters"]) if i % c["save"] == 0]
            files = sorted(os.path.relpath(os.path.join(wd, "%s.%d%s" % (stem, i, e)), top) for i in pts for e in ("", ".rand"))
            R.ok(n=len(files))
            if listing() != files:
                R.bad("files/" + ("path" if set(map(os.path.basename, listing())) != set(map(os.path.basename, files)) or len(listing()) != len(files) else "place"),
                      "%s: files %s, expected %s" % (ctx, listing(), files)); return R.out()
            def read(f, i):
                g.setup(dims, c["threads"], 99, head); g.B.v_flow(i); stt = np.zeros(1, np.int32)
                with Capture(g.B) as cp: q = S.u_read(f.encode(), head, P(stt))
                if not q: R.bad("readable/" + K, "%s: saved configuration %s is refused: %s" % (ctx, f, cp.text[-400:])); return None
                A = g.get(q); g.free(q); return A
            prev = None; saved = {}
            for i in pts:
                A = read("%s.%d" % (stem, i), i)
                if A is None: return R.out()
                if c["fmt"].startswith("NERSC") and g.B.v_getflow() != i: R.bad("sequence", "%s: configuration %d carries number %d" % (ctx, i, g.B.v_getflow()))
                pl = float(np.mean(ref.plaquettes(lat, A)[0])) if False else np.mean([ref.tr(ref.plaq_field(lat, A, mu, nu)).real.mean() / N for mu in range(ND) for nu in range(mu)])
                if i in meas: R.near("measured/" + K, meas[i], pl, 1e-10 if exact else 1e-6, "%s: printed against saved plaquette of configuration %d" % (ctx, i))
                if prev is not None and abs(A - prev).max((2, 3)).min() < 1e-8: R.bad("moved", "%s: links unchanged between saves" % ctx)
                prev = A; saved[i] = A; R.ok()
            blob = {f: open(os.path.join(top, f), "rb").read() for f in files}
            # continue from each save point but the last
            for i in pts[:-1] if len(pts) < 4 else [pts[0], pts[int(r.integers(1, len(pts) - 1))]]:
                for f in files:
                    m = int(re.search(r"\.(\d+)(\.rand)?$", f).group(1))
                    fp = os.path.join(top, f)
                    if m > i and os.path.exists(fp): os.remove(fp)
                    elif m <= i: open(fp, "wb").write(blob[f])
                g.setup(dims, c["threads"], 4242, head); g.B.v_flow(i)
                with Capture(g.B) as cap: st = S.u_heatbath(("%s.%d" % (stem, i)).encode(), head, *args, 0, 1, sto, b"test")
                R.ok()
                m2 = {int(a): float(b) for a, b in re.findall(r"\[UPDATE\] (\d+) :: \{P\} (\S+)", cap.text)}
                if sorted(m2) != [k for k in want if k >= i]: R.bad("continue/measurements", "%s: continuing from %d measured at %s" % (ctx, i, sorted(m2)))
                elif i in m2: R.near("continue/measured/" + K, m2[i], meas[i], 1e-10 if exact else 1e-6, "%s: plaquette at the restart %d" % (ctx, i))
                if st: R.bad("continue/status/" + K, "%s: continuing from %d returned %d: %s" % (ctx, i, st, cap.text[-300:])); continue
                if listing() != files: R.bad("continue/files", "%s: continuing from %d leaves %s" % (ctx, i, listing())); continue
                for f in files:
                    m = int(re.search(r"\.(\d+)(\.rand)?$", f).group(1))
                    if m <= i: continue
                    new = open(os.path.join(top, f), "rb").read(); R.ok(n=len(new))
                    if f.endswith(".rand"):
                        # which random numbers are consumed does not depend on rounding, but for accept-reject decisions at the threshold
                        if new != blob[f] and m <= i + c["save"]: R.bad("continue/generator/" + K, "%s: generator state %s after continuing from %d differs from the uninterrupted run" % (ctx, f, i)); break
                    elif new != blob[f] and m <= i + c["save"]:
                        B = read(os.path.join(top, f), m)
                        if B is None: break
                        e = abs(B - saved[m]).max((2, 3))
                        if not e.max() < 1e-8: R.bad("continue/differs/" + K, "%s: %.3g of the links written after continuing from %d differ from the uninterrupted run, by up to %g" % (ctx, np.mean(e > 1e-8), i, e.max())); break
                R.ok("%s/%s/%s/%d/%d" % (g.variant, c["fmt"], c["path"], i, c["threads"]))
        finally:
            os.chdir(cwd)
    return R.out()
