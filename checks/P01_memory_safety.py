"""Every mode under AddressSanitizer, UndefinedBehaviorSanitizer and memcheck."""
import os, re, shutil, tempfile, subprocess
import numpy as np
from common import *
import ref, rio, prog, fw
PROP = "P01"; LEVEL = "exploration"
RULE = ("the real program, compiled with AddressSanitizer and UndefinedBehaviorSanitizer (casts included), is run in every mode with generated combinations of documented options, extremes included, on valid lattices of extents 1 to 7 "
        "with 1 to 16 threads and with any amount of memory; no report, no signal and an end are demanded of each run; further runs of ordinary builds are watched by memcheck for decisions made on uninitialised values, "
        "and repeated with differently prefilled heap memory, which must not change any output; distinct by variant, mode, option names, extents class, threads and outcome")
ASSUMPTIONS = ["numbers of iterations and momentum cutoffs are kept small enough for a run to end within its time",
               "gauge fixing restarts without bound when its accuracy cannot be reached: such runs are stopped and only their memory accesses are judged",
               "memcheck sees the instructions of the one build it runs"]
MIN_SIGS = 250
TIMEOUT = 600
SAN = ["nc3_san", "nc2_san", "nc4_san", "nc5nd3_san", "nc4gsl_san", "nc3nofft_san", "nc3nosse_san", "nc3sd_san", "nc3clover_san"]
RAW = ["nc3", "nc2", "nc5nd3", "nc4"]
BUILDS = SAN + RAW
STORE = ["NERSC_SMALL", "NERSC_GAUGE", "NERSC_NCxNC", "MILC", "ILDG", "SCIDAC", "HIREP", "CERN"]
SMEAR = ["APE", "STOUT", "LOG", "HYP", "HEX", "HYL", "WFLOW_STOUT", "WFLOW_LOG", "ADAPTWFLOW_STOUT", "ADAPTWFLOW_LOG", "NOTHING"]
CUT = ["EXCEPTIONAL", "NON_EXCEPTIONAL", "FIELDS", "SMEARED_GLUONS", "INSTANTANEOUS_GLUONS", "CONFIGSPACE_GLUONS", "GLUON_PROPS", "STATIC_POTENTIAL", "TOPOLOGICAL_CORRELATOR", "TOPOLOGICAL_SUSCEPTIBILITY", "TOPOLOGICAL_MOMENTS", "NOTHING"]
FIX = ["LANDAU", "COULOMB", "COULOMB_RESIDUAL", "AXIALT", "MAG", "NONE"]
U1 = ["U1_PLAQUETTE", "U1_RECTANGLE", "U1_TOPOLOGICAL"]
SUB = dict(SMEARING=SMEAR, CUTTING=CUT, GAUGE_FIXING=FIX, SUNCxU1=U1, REWRITE=STORE, HEATBATH=["CONTINUE", "START"])

def inputs(N, ND): return [f for f in rio.FORMATS if (f != "CERN" or (N, ND) == (3, 4)) and (f != "NERSC_SMALL" or N < 4)] + ["BQCD", "LIME", "JLQCD", "RANDOM", "UNIT"] + (["INSTANTON"] if ND == 4 else [])

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []
    per = 24 if tier == "quick" else 90
    for v in SAN:
        N, ND = ncnd(v)
        for mode in SUB:
            subs = SUB[mode]; n = {"nc3_san": per * 2}.get(v, per) if mode in ("CUTTING", "SMEARING", "GAUGE_FIXING") else per // 2
            for k in range(n):
                # every documented value first, then at random
                out.append(dict(variant=v, label="run/" + mode, mode=mode, sub=subs[(k + int(r.integers(len(subs)))) % len(subs)] if k >= len(subs) else subs[k], seed=int(r.integers(1, 1 << 31))))
    for v in RAW:
        for mode in SUB:
            subs = SUB[mode]; idx = [int(x) for x in r.permutation(len(subs))]; pick = idx if (v == "nc3" or tier != "quick") else idx[:1]
            for k in pick: out.append(dict(variant=v, label="memcheck", mode=mode, sub=subs[k], seed=int(r.integers(1, 1 << 31))))
            for k in range(3 if tier == "quick" else 20): out.append(dict(variant=v, label="prefill", mode=mode, sub=subs[int(r.integers(len(subs)))], seed=int(r.integers(1, 1 << 31))))
    # the slowest first
    return sorted(out, key=lambda c: c["label"] != "memcheck")

def make(c, g, r, wd, small):
    """settings and a configuration"""
    N, ND = g.NC, g.ND; mode, sub = c["mode"], c["sub"]; p = lambda *a: str(r.choice(a))
    s = prog.settings(ND, MODE=mode, SEED=int(r.choice([1, 2, 3, 2**32 - 1, int(r.integers(1, 2**32))])), CONFNO=int(r.choice([0, 1, 7, 99999, 2**31])), STORAGE=p(*STORE), RANDOM_TRANSFORM=p("YES", "NO"),
        GFTYPE=p(*FIX), CUTTYPE=p(*CUT), SMEARTYPE=p(*SMEAR), SMITERS=int(r.choice([0, 1, 2, 3, 6])), DIRECTION=p("ALL", "SPATIAL"), FIELD_DEFINITION=p("LINEAR", "LOGARITHMIC"),
        MOM_CUT=p("HYPERCUBIC_CUT", "SPHERICAL_CUT", "CYLINDER_CUT", "CONICAL_CUT"), MAX_T=int(r.choice([0, 1, 2, 3, 5, 100])), MAXMOM=int(r.choice([0, 1, 2, 4, 9, 30, 1000, 10**6])), CYL_WIDTH=p("0.0", "0.5", "2.0", "1e6"), ANGLE=int(r.choice([0, 10, 45, 60, 90, 180, 1000])),
        U1_MEAS=p(*U1), U1_ALPHA=p("0.0", "0.0795775", "1.0", "1e-9", "1e6"), U1_CHARGE=p("0.0", "1.0", "-0.333", "7"), ITERS=int(r.choice([0, 1, 2, 3, 5])), SAVE=int(r.choice([1, 2, 3, 100])), MEASURE=int(r.choice([1, 2, 100])), OVER_ITERS=int(r.choice([0, 1, 3])), THERM=int(r.choice([0, 1, 2, 5])),
        BETA=p("0.0", "0.1", "2.3", "6.0", "100", "1e-5"), GF_TUNE=p("0.0", "0.01", "0.08", "0.2", "1.0"), ACCURACY=int(r.choice([0, 1, 3, 6, 14, 20])), MAX_ITERS=int(r.choice([0, 1, 5, 40])), CONFIG_INFO=p("x", "a" * 63, "%s%n%d", "<xml>", "/../"))
    for k in range(1, ND): s["ALPHA%d" % k] = p("0.0", "0.05", "0.3", "0.75", "1.0", "3.0", "1e-8", "100.0") if r.random() < 0.5 else "%.5f" % r.uniform(0.01, 0.7)
    conf = mode if False else None
    if mode == "SMEARING":
        s["SMEARTYPE"] = sub
        if "FLOW" in sub: s["ALPHA1"] = p("0.02", "0.01", "0.1", "0.3"); s["SMITERS"] = int(r.choice([0, 1, 3, 10])) if not sub.startswith("ADAPT") else int(r.choice([0, 1, 3]))
    if mode == "CUTTING":
        s["CUTTYPE"] = sub
        if sub == "NON_EXCEPTIONAL": s["MAXMOM"] = int(r.choice([0, 1, 2, 4, 7, 12] if not small else [0, 2, 4]))
    if mode == "GAUGE_FIXING":
        s["GFTYPE"] = sub
        if r.random() < 0.7: s.update(GF_TUNE=p("0.05", "0.08"), ACCURACY=int(r.integers(2, 10)), MAX_ITERS=int(r.choice([5, 60, 200])))
    if mode == "REWRITE": s["STORAGE"] = sub
    if mode == "SUNCxU1": s["U1_MEAS"] = sub
    ins = inputs(N, ND); inp = str(r.choice(ins))
    if mode == "HEATBATH":
        inp = str(r.choice(["UNIT", "RANDOM"] if sub == "START" else [x for x in ins if x not in ("UNIT", "RANDOM", "INSTANTON")]))
        s["STORAGE"] = p(*[x for x in STORE if x != "CERN" or ND == 4])
    mx = 80 if small else 400
    if N > 3: mx //= 2
    lo = 1 if r.random() < 0.35 else 2
    dims = dims_of(r, ND, lo, 3 if small else 7, mx)
    if mode == "GAUGE_FIXING" and int(np.prod(dims)) > 150: dims = dims_of(r, ND, lo, 5, 150)
    if inp == "CERN" or (s["STORAGE"] == "CERN" and r.random() < 0.5): dims = [d + d % 2 for d in dims_of(r, ND, 2, 5, mx)]
    if N > 3 and s["SMEARTYPE"] == "HYL": dims = dims_of(r, ND, lo, 3, 24)   # a logarithm takes a millisecond, and with little memory a link needs hundreds of them
    elif r.random() < 0.2: dims = [int(r.choice([2, 4]))] * ND if mx >= 256 else [2] * ND
    if inp == "BQCD": dims = [min(d, 4) for d in dims]
    s = prog.with_dims(s, dims)
    tag = inp if inp in ("RANDOM", "UNIT", "INSTANTON") else prog.HEADERTAG[inp]; s["HEADER"] = tag
    if inp not in ("RANDOM", "UNIT", "INSTANTON"):
        kind = str(r.choice(["hot", "warm", "smooth", "gaugeunit", "unit", "diag", "center"]))
        with open(os.path.join(wd, "conf"), "wb") as f: f.write(rio.encode(inp, dims, ref.field(r, dims, N, kind), "F" if r.random() < 0.2 and inp not in ("HIREP", "JLQCD", "CERN") else "D", "little" if r.random() < 0.3 and (inp.startswith("NERSC") or inp == "MILC") else "big", flow=int(r.integers(1, 99999))))
    else: kind = inp
    return s, dims, inp, kind

def sizes(d): return "%s%s%s" % ("one " if 1 in d else "", "odd " if any(x % 2 for x in d) else "", "equal" if len(set(d)) == 1 else "unequal")

def outputs(wd):
    o = {}
    for a, _, fs in os.walk(wd):
        for f in fs:
            if f not in ("in.txt", "conf"): o[os.path.relpath(os.path.join(a, f), wd)] = open(os.path.join(a, f), "rb").read()
    return o
strip = undate

def run(c, g):
    R = Report(); r = rng_of(c["seed"]); lab = c["label"]; wd = tempfile.mkdtemp(prefix="glup01")
    try:
        s, dims, inp, kind = make(c, g, r, wd, lab != "run/" + c["mode"]); mode, sub = c["mode"], c["sub"]
        T = int(r.choice([1, 2, 3, 8, 16])); out = "out" if mode not in ("CUTTING", "HEATBATH") or r.random() < 0.5 else None
        ctx = "%s %s/%s on %s (%s) extents %s threads %d" % (g.variant, mode, sub, inp, kind, dims, T); key = "%s/%s" % (mode, sub)
        slow = mode == "GAUGE_FIXING"
        def judge(res, what):
            if "ERROR: AddressSanitizer" in res.err or "runtime error:" in res.err:
                k, w = fw.crash_site(res.err); i = max(res.err.find("ERROR: AddressSanitizer"), res.err.find("runtime error:")); R.bad("report/%s/%s" % (w or "?", k or "report"), "%s %s: %s" % (ctx, what, res.err[max(0, i - 200):i + 1800])); return "report"
            if res.rc is not None and (res.rc < 0 or res.rc in (134, 139, 136)): R.bad("signal/" + key, "%s %s: ended by signal %d: %s" % (ctx, what, -res.rc, res.text[-1200:])); return "signal"
            if res.rc is None:
                if not slow: R.bad("hang/" + key, "%s %s: no end: %s; settings %s" % (ctx, what, res.text[-600:], {k: v for k, v in s.items()}))
                R.obs["runs stopped (accuracy out of reach)"] = R.obs.get("runs stopped (accuracy out of reach)", 0) + 1; return "stopped"
            return "ok" if res.rc == 0 else "refused"
        if lab.startswith("run/"):
            B = int(np.prod(dims)) * (g.NC**2 * g.ND * 16 + 8 * g.ND)
            for mem in [None] + ([float(r.uniform(0.3, 6))] if r.random() < 0.35 else []):
                for f in outputs(wd): os.unlink(os.path.join(wd, f))
                res = prog.run(g, wd, s, "conf", out, T, None if mem is None else mem * B, timeout=20 if slow else 120)
                if res.rc is None and not slow: res = prog.run(g, wd, s, "conf", None, T, None if mem is None else mem * B, timeout=240)
                st = judge(res, "" if mem is None else "memory %.2f fields" % mem)
                R.ok("%s/%s/%s/%s/%s/%d/%s%s" % (g.variant, mode, sub, inp if mode in ("REWRITE", "HEATBATH") else s["STORAGE"], sizes(dims), min(T, 2), st, "/memory" if mem else "")); R.obs["runs " + st] = R.obs.get("runs " + st, 0) + 1
        elif lab == "memcheck":
            cmd = ["valgrind", "-q", "--error-exitcode=99", "--num-callers=12", "--max-stackframe=8000000", "--undef-value-errors=yes", "--track-origins=no", os.path.join(g.dir, "GLU"), "-i", "in.txt", "-c", "conf"] + (["-o", out] if out else [])
            open(os.path.join(wd, "in.txt"), "w").write(prog.text(s)); e = dict(os.environ, OMP_NUM_THREADS=str(min(T, 2)), OMP_WAIT_POLICY="passive", OMP_DYNAMIC="false"); e.pop("LD_PRELOAD", None)
            q = subprocess.Popen(cmd, cwd=wd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
            try: o, er = q.communicate(timeout=150); rc = q.returncode
            except subprocess.TimeoutExpired: os.killpg(q.pid, 9); o, er = q.communicate(); rc = None
            er = er.decode(errors="replace")
            m = re.search(r"==\d+== (Conditional|Use of uninit|Invalid|Syscall param|Source and dest|Process terminating|Argument|Mismatched|Jump)[^\n]*", er)
            if m and "Process terminating with default action of signal 9" not in er:
                fr = re.search(r"(\w+)(?:\.\w+)* \((\w+\.c):\d+\)", er[m.start():]); R.bad("memcheck/%s/%s" % ("@".join(fr.groups()) if fr else "?", m.group(1)), "%s: %s" % (ctx, er[m.start():m.start() + 1800]))
            R.ok("%s/memcheck/%s/%s/%s/%s" % (g.variant, mode, sub, sizes(dims), "stopped" if rc is None else "ok" if rc == 0 else "refused")); k = "memcheck runs " + ("stopped" if rc is None else "ended"); R.obs[k] = R.obs.get(k, 0) + 1
        else:
            s["SEED"] = c["seed"]; base = None
            for fill in (0, 1, 85, 170, 255):
                for f in outputs(wd): os.unlink(os.path.join(wd, f))
                res = prog.run(g, wd, s, "conf", "out" if out else None, 1, env={"MALLOC_PERTURB_": str(fill)}, timeout=20 if slow else 120)
                if judge(res, "heap prefill %d" % fill) == "stopped": return R.out()
                got = {k: strip(v) for k, v in outputs(wd).items()}; R.ok("%s/prefill/%s/%s/%s" % (g.variant, mode, sub, sizes(dims)))
                txt = "\n".join(l for l in res.out.splitlines() if not re.search(r"time|TIME|second|SEC", l))
                if base is None: base = (res.rc, got); continue
                if res.rc != base[0]: R.bad("prefill/status/" + key, "%s: status %s with heap memory prefilled with %d, %s without" % (ctx, res.rc, fill, base[0])); continue
                for f in sorted(set(got) | set(base[1])):
                    if got.get(f) != base[1].get(f): R.bad("prefill/output/%s" % key, "%s: %s depends on what heap memory held before (%d)" % (ctx, f, fill))
    finally: shutil.rmtree(wd, ignore_errors=True)
    return R.out()
